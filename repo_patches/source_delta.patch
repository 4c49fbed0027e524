From 6763502b46140874a5ab33bdf974f989de8808c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 001/142] fix: decode \u, \/ and unknown JSON string escapes
 instead of emitting uninitialized bytes

---
 amelie/runtime/json/escape.h | 72 ++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 521db14..84482a1 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -11,6 +11,72 @@
 // AGPL-3.0 Licensed.
 //
 
+static inline int
+unescape_hex(const char* pos, const char* end)
+{
+	// XXXX
+	if (end - pos < 4)
+		return -1;
+	int value = 0;
+	for (auto i = 0; i < 4; i++)
+	{
+		int at = (uint8_t)pos[i];
+		if (! isxdigit(at))
+			return -1;
+		value = (value << 4) | (isdigit(at) ? at - '0' : (tolower(at) - 'a') + 10);
+	}
+	return value;
+}
+
+static inline int
+unescape_unicode(char** pos, const char* end, uint8_t* result)
+{
+	// uXXXX [\uXXXX] (pos is set to u)
+	auto at   = *pos + 1;
+	auto code = unescape_hex(at, end);
+	if (code == -1)
+	{
+		*result = **pos;
+		return 1;
+	}
+	at += 4;
+	if (code >= 0xD800 && code <= 0xDBFF && end - at >= 6 &&
+	    at[0] == '\\' && at[1] == 'u')
+	{
+		auto low = unescape_hex(at + 2, end);
+		if (low >= 0xDC00 && low <= 0xDFFF)
+		{
+			code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+			at += 6;
+		}
+	}
+	// last consumed symbol
+	*pos = at - 1;
+	if (code < 0x80)
+	{
+		result[0] = code;
+		return 1;
+	}
+	if (code < 0x800)
+	{
+		result[0] = 0xC0 | (code >> 6);
+		result[1] = 0x80 | (code & 0x3F);
+		return 2;
+	}
+	if (code < 0x10000)
+	{
+		result[0] = 0xE0 | (code >> 12);
+		result[1] = 0x80 | ((code >> 6) & 0x3F);
+		result[2] = 0x80 | (code & 0x3F);
+		return 3;
+	}
+	result[0] = 0xF0 | (code >> 18);
+	result[1] = 0x80 | ((code >> 12) & 0x3F);
+	result[2] = 0x80 | ((code >> 6) & 0x3F);
+	result[3] = 0x80 | (code & 0x3F);
+	return 4;
+}
+
 hot static inline void
 unescape_str(Buf* self, Str* string)
 {
@@ -61,6 +127,12 @@ unescape_str(Buf* self, Str* string)
 		case 'v':
 			*result = '\v';
 			break;
+		case 'u':
+			result += unescape_unicode(&pos, end, result) - 1;
+			break;
+		default:
+			*result = *pos;
+			break;
 		}
 		slash = false;
 		result++;
-- 
2.43.0


From 2a453aa02617d597b08350ec21eebf8c23e95b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 002/142] fix: do not read JSON numbers past the end of text,
 accept the minimum integer and large reals

---
 amelie/runtime/json/json_parser.c | 35 +++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 32c72de..e1b7250 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -145,32 +145,45 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		self->pos++;
 	}
 	auto start = self->pos;
+	bool overflow = false;
 	while (self->pos < self->end)
 	{
 		if (*self->pos == '.' ||
 		    *self->pos == 'e' ||
 		    *self->pos == 'E')
-		{
-			self->pos = start;
 			goto read_as_double;
-		}
 		if (! isdigit(*self->pos))
 			break;
-		if (unlikely(int64_mul_add_overflow(value, *value, 10, *self->pos - '0')))
-			error("JSON int overflow");
+		auto digit = *self->pos - '0';
+		if (unlikely(int64_mul_add_overflow(value, *value, 10, minus ? -digit : digit)))
+			overflow = true;
 		self->pos++;
 	}
-	if (minus)
-		*value = -(*value);
+	if (unlikely(self->pos == start))
+		error("unexpected JSON token");
+	if (unlikely(overflow))
+		error("JSON int overflow");
 	return true;
 
-read_as_double:
+read_as_double:;
+	// text is not necessarily zero-terminated
+	char number[512];
+	auto number_size = 0;
+	for (auto pos = start; pos < self->end && number_size < (int)sizeof(number) - 1; pos++)
+	{
+		if (! isdigit(*pos) && *pos != '.' && *pos != '+' && *pos != '-' &&
+		    *pos != 'e' && *pos != 'E')
+			break;
+		number[number_size++] = *pos;
+	}
+	number[number_size] = 0;
+
 	errno = 0;
 	char* end = NULL;
-	*real = strtod(start, &end);
-	if (errno == ERANGE)
+	*real = strtod(number, &end);
+	if (errno == ERANGE || end == number)
 		error("bad JSON float number");
-	self->pos = end;
+	self->pos = start + (end - number);
 	if (minus)
 		*real = -(*real);
 	return false;
-- 
2.43.0


From ae59de595c7d35558b99573336e25dceadf320ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 003/142] fix: limit JSON nesting to not overflow the coroutine
 stack on export

---
 amelie/runtime/json/json_parser.c | 3 +++
 amelie/runtime/json/json_parser.h | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index e1b7250..2592ba0 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -53,6 +53,9 @@ typedef enum
 hot static inline void
 json_push(Json* self, JsonState state)
 {
+	// values are exported and compared recursively
+	if (unlikely(buf_size(&self->stack) > JSON_DEPTH_MAX * (int)sizeof(JsonState)))
+		error("JSON nesting is too deep");
 	buf_write(&self->stack, &state, sizeof(state));
 }
 
diff --git a/amelie/runtime/json/json_parser.h b/amelie/runtime/json/json_parser.h
index 73d0736..6d428ce 100644
--- a/amelie/runtime/json/json_parser.h
+++ b/amelie/runtime/json/json_parser.h
@@ -13,6 +13,11 @@
 
 typedef struct Json Json;
 
+enum
+{
+	JSON_DEPTH_MAX = 256
+};
+
 struct Json
 {
 	char* pos;
-- 
2.43.0


From 97426737eabb33814a25e55258cbb1ae3d38b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 004/142] fix: do not truncate JSON reals to float when it
 loses precision

---
 amelie/runtime/json/json.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/json.h b/amelie/runtime/json/json.h
index f2430c6..15225ab 100644
--- a/amelie/runtime/json/json.h
+++ b/amelie/runtime/json/json.h
@@ -400,10 +400,17 @@ json_is_bool(uint8_t* data)
 }
 
 // real
+always_inline hot static inline bool
+json_real_is_float(double value)
+{
+	// use float only if the value can be represented exactly
+	return value >= FLT_MIN && value <= FLT_MAX && (double)(float)value == value;
+}
+
 always_inline hot static inline int
 json_size_real(double value)
 {
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_real_is_float(value))
 		return json_size_type() + sizeof(float);
 	return json_size_type() + sizeof(double);
 }
@@ -437,7 +444,7 @@ always_inline hot static inline void
 json_write_real(uint8_t** pos, double value)
 {
 	uint8_t* data = *pos;
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_real_is_float(value))
 	{
 		*data = JSON_REAL32;
 		*(float*)(data + json_size_type()) = value;
-- 
2.43.0


From 40238e96df8ea9a44170f2016240f40cf78e4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 005/142] fix: escape control characters in JSON strings

---
 amelie/runtime/json/escape.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 84482a1..ddc612c 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -171,6 +171,11 @@ escape_str(Buf* self, Str* raw)
 			buf_write(self, "\\t", 2);
 			break;
 		default:
+			if (unlikely((uint8_t)*pos < 0x20))
+			{
+				buf_printf(self, "\\u%04x", (uint8_t)*pos);
+				break;
+			}
 			buf_write(self, pos, 1);
 			break;
 		}
-- 
2.43.0


From 730d4f72457387bebb03a02c94fb96aea707ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 006/142] fix: reject non-ASCII bytes in base64 decode instead
 of reading past the table

---
 amelie/runtime/lib/base64.c    | 3 +++
 amelie/runtime/lib/base64url.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 6cf47fb..9138705 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -105,6 +105,9 @@ base64_decode(Buf* self, Str* str)
 		if (*pos == '=')
 			break;
 
+		if (unlikely(*pos >= sizeof(base64_decode_table)))
+			goto error;
+
 		auto c = base64_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5d4d5e3..bc80bf0 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -130,6 +130,9 @@ base64url_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
+		if (unlikely(*pos >= sizeof(base64url_decode_table)))
+			goto error;
+
 		auto c = base64url_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
-- 
2.43.0


From c3b433ba788659d37b5cb508cdffb2678bb03583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 007/142] fix: reject dates with an invalid month or day of the
 month

---
 amelie/runtime/lib/date.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/date.c b/amelie/runtime/lib/date.c
index 2981142..3680ca4 100644
--- a/amelie/runtime/lib/date.c
+++ b/amelie/runtime/lib/date.c
@@ -72,7 +72,15 @@ date_set(Str* str)
 		goto error;
 	int day = date_parse_part(str, pos, pos_end);
 
-	return date_set_gregorian(year, month, day);
+	// validate month and day of the month
+	int julian_day = date_set_gregorian(year, month, day);
+	int check_year;
+	int check_month;
+	int check_day;
+	date_get_gregorian(julian_day, &check_year, &check_month, &check_day);
+	if (unlikely(check_year != year || check_month != month || check_day != day))
+		goto error;
+	return julian_day;
 
 error:
 	date_error_str(str);
-- 
2.43.0


From 6d1fce159af7c4d90d8f8193b7aa027d5aa38a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 008/142] fix: do not read a timestamp past the end of text

---
 amelie/runtime/lib/timestamp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index ed805c7..4709aec 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -55,7 +55,7 @@ timestamp_parse(Timestamp* self, Str* str)
 	// whitespace
 	while (pos < end && isspace(*pos))
 		pos++;
-	if (pos == end)
+	if (unlikely(end - pos < 19))
 		goto error;
 
 	// year
-- 
2.43.0


From 46e76ac83ef4e58a8ae2d10936ad4d9ee273c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 009/142] fix: reject timestamps with an invalid day of the
 month or time

---
 amelie/runtime/lib/timestamp.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 4709aec..81f3f46 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -200,8 +200,20 @@ timestamp_validate(Timestamp* self, Str* str)
 	if (! (self->time.tm_mon >= 1 && self->time.tm_mon <= 12))
 		goto error;
 
-	// day
-	if (! (self->time.tm_mday >= 1 && self->time.tm_mday <= 31))
+	// day (of the month)
+	int year  = self->time.tm_year;
+	int month = self->time.tm_mon;
+	int days  = 31;
+	if (month == 4 || month == 6 || month == 9 || month == 11)
+		days = 30;
+	else
+	if (month == 2)
+		days = (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)) ? 29 : 28;
+	if (! (self->time.tm_mday >= 1 && self->time.tm_mday <= days))
+		goto error;
+
+	// time
+	if (self->time.tm_hour > 23 || self->time.tm_min > 59 || self->time.tm_sec > 59)
 		goto error;
 
 	// zone
-- 
2.43.0


From 09385e308a031de944685f8b14ffecb3cbb3bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 010/142] fix: report interval overflow and a missing cardinal
 instead of wrapping around

---
 amelie/runtime/lib/interval.c | 42 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index ea50232..a341149 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -32,6 +32,26 @@ interval_error_field(Str* str)
 	error("invalid interval field '%.*s'", str_size(str), str_of(str));
 }
 
+static inline void
+interval_read_us(Interval* self, Str* type, int64_t value, int64_t mul)
+{
+	int64_t us = self->us;
+	if (unlikely(int64_mul_overflow(&value, value, mul) ||
+	             int64_add_overflow(&us, us, value)))
+		interval_error_type(type);
+	self->us = us;
+}
+
+static inline int32_t
+interval_read_int(int32_t prev, Str* type, int64_t value, int64_t mul)
+{
+	if (unlikely(int64_mul_overflow(&value, value, mul) ||
+	             int64_add_overflow(&value, value, prev) ||
+	             value < INT32_MIN || value > INT32_MAX))
+		interval_error_type(type);
+	return value;
+}
+
 static inline void
 interval_read_type(Interval* self, Str* type, int64_t value)
 {
@@ -46,7 +66,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "minutes", 7) ||
 		    str_is(type, "minute", 6))
 		{
-			self->us += value * 60LL * 1000 * 1000;
+			interval_read_us(self, type, value, 60LL * 1000 * 1000);
 			return;
 		}
 
@@ -55,7 +75,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "months", 6) ||
 		    str_is(type, "month", 5))
 		{
-			self->m += value;
+			self->m = interval_read_int(self->m, type, value, 1);
 			return;
 		}
 
@@ -66,7 +86,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "milliseconds", 12) ||
 		    str_is(type, "millisecond", 11))
 		{
-			self->us += value * 1000LL;
+			interval_read_us(self, type, value, 1000LL);
 			return;
 		}
 
@@ -75,7 +95,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "microseconds", 12) ||
 		    str_is(type, "microsecond", 11))
 		{
-			self->us += value;
+			interval_read_us(self, type, value, 1);
 			return;
 		}
 		break;
@@ -83,7 +103,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		// us
 		if (str_is(type, "us", 2))
 		{
-			self->us += value;
+			interval_read_us(self, type, value, 1);
 			return;
 		}
 		break;
@@ -97,7 +117,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "seconds", 7) ||
 		    str_is(type, "second", 6))
 		{
-			self->us += value * 1000LL * 1000;
+			interval_read_us(self, type, value, 1000LL * 1000);
 			return;
 		}
 		break;
@@ -111,7 +131,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "hours", 5) ||
 		    str_is(type, "hour", 4))
 		{
-			self->us += value * 60LL * 60 * 1000 * 1000;
+			interval_read_us(self, type, value, 60LL * 60 * 1000 * 1000);
 			return;
 		}
 		break;
@@ -121,7 +141,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "days", 4) ||
 		    str_is(type, "day", 3))
 		{
-			self->d += value;
+			self->d = interval_read_int(self->d, type, value, 1);
 			return;
 		}
 		break;
@@ -131,7 +151,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "weeks", 5) ||
 		    str_is(type, "week", 4))
 		{
-			self->d += value * 7;
+			self->d = interval_read_int(self->d, type, value, 7);
 			return;
 		}
 		break;
@@ -141,7 +161,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "years", 5) ||
 		    str_is(type, "year", 4))
 		{
-			self->m += value * 12;
+			self->m = interval_read_int(self->m, type, value, 12);
 			return;
 		}
 		break;
@@ -174,6 +194,8 @@ interval_set(Interval* self, Str* str)
 		}
 
 		// cardinal
+		if (pos == end || !isdigit(*pos))
+			goto error;
 		int64_t cardinal = 0;
 		while (pos < end && isdigit(*pos))
 		{
-- 
2.43.0


From fcd5f4675e8662161448d6ac650bdea3d3632aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 011/142] fix: truncate and extract negative intervals using
 signed arithmetic

---
 amelie/runtime/lib/interval.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index a341149..deeaf46 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -440,31 +440,31 @@ interval_trunc(Interval* self, Str* field)
 		break;
 	case INTERVAL_DAY:
 	{
-		const auto hour = 24ULL * 60 * 60 * 1000 * 1000;
+		const auto hour = 24LL * 60 * 60 * 1000 * 1000;
 		self->us = (self->us / hour) * hour;
 		break;
 	}
 	case INTERVAL_HOUR:
 	{
-		const auto min = 60ULL * 60 * 1000 * 1000;
+		const auto min = 60LL * 60 * 1000 * 1000;
 		self->us = (self->us / min) * min;
 		break;
 	}
 	case INTERVAL_MINUTE:
 	{
-		const auto sec = 60ULL * 1000 * 1000;
+		const auto sec = 60LL * 1000 * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_SECOND:
 	{
-		const auto sec = 1000ULL * 1000;
+		const auto sec = 1000LL * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_MILLISECOND:
 	{
-		const auto ms = 1000ULL;
+		const auto ms = 1000LL;
 		self->us = (self->us / ms) * ms;
 		break;
 	}
@@ -480,7 +480,7 @@ interval_extract(Interval* self, Str* field)
 	if (rc == -1)
 		interval_error_field(field);
 
-	uint64_t result;
+	int64_t result;
 	switch (rc) {
 	case INTERVAL_YEAR:
 		result = self->m / 12;
@@ -492,16 +492,16 @@ interval_extract(Interval* self, Str* field)
 		result = self->d;
 		break;
 	case INTERVAL_HOUR:
-		result = (self->us / (60ULL * 60 * 1000 * 1000));
+		result = (self->us / (60LL * 60 * 1000 * 1000));
 		break;
 	case INTERVAL_MINUTE:
-		result = (self->us % (60ULL * 60 * 1000 * 1000)) / (60ULL * 1000 * 1000);
+		result = (self->us % (60LL * 60 * 1000 * 1000)) / (60LL * 1000 * 1000);
 		break;
 	case INTERVAL_SECOND:
-		result = (self->us % (60ULL * 1000 * 1000)) / (1000ULL * 1000);
+		result = (self->us % (60LL * 1000 * 1000)) / (1000LL * 1000);
 		break;
 	case INTERVAL_MILLISECOND:
-		result = (self->us % (1000ULL * 1000)) / (1000ULL);
+		result = (self->us % (1000LL * 1000)) / (1000LL);
 		break;
 	case INTERVAL_MICROSECOND:
 		result = (self->us % (1000));
-- 
2.43.0


From b7f2229e7461aa985397f2d2f8238c4265baed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 012/142] fix: find the timezone transition by signed time and
 within the transitions table

---
 amelie/runtime/lib/timezone.c | 38 ++++++++++-------------------------
 amelie/runtime/lib/timezone.h |  2 +-
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/amelie/runtime/lib/timezone.c b/amelie/runtime/lib/timezone.c
index 8b1b88a..442b736 100644
--- a/amelie/runtime/lib/timezone.c
+++ b/amelie/runtime/lib/timezone.c
@@ -83,7 +83,7 @@ timezone_create(Str* name, char* path)
 	if (self->header.timecnt > 0)
 	{
 		// transition times
-		int transition_times_size = header->timecnt * sizeof(uint32_t);
+		int transition_times_size = header->timecnt * sizeof(int32_t);
 		self->transition_times = am_malloc(transition_times_size);
 		file_read(&file, self->transition_times, transition_times_size);
 		for (uint32_t i = 0; i < header->timecnt; i++)
@@ -123,38 +123,22 @@ timezone_match(Timezone* self, time_t time)
 	if (self->header.timecnt == 0)
 		return &self->times[0];
 
-	int min = 1;
+	// find the last transition which is less or equal to the time
+	int min = 0;
 	int max = self->header.timecnt;
-	int mid = (min + max) / 2;
-	while (mid > min)
+	while (min < max)
 	{
-		if (min >= (int)self->header.timecnt)
-		{
-			mid = self->header.timecnt;
-			break;
-		}
-		if (min == mid)
-			break;
-
-		if (self->transition_times[mid] == time)
-		{
-			mid++;
-			break;
-		}
-		if (self->transition_times[mid] < time)
+		int mid = (min + max) / 2;
+		if (self->transition_times[mid] <= time)
 			min = mid + 1;
 		else
-			max = mid - 1;
-
-		mid = (min + max) / 2;
+			max = mid;
 	}
 
-	if (mid > (int)self->header.timecnt)
-		mid = self->header.timecnt;
-
-	if (time > self->transition_times[mid])
-		mid++;
+	// before the first transition
+	if (min == 0)
+		return &self->times[0];
 
-	auto type = self->transition_types[mid - 1];
+	auto type = self->transition_types[min - 1];
 	return &self->times[type];
 }
diff --git a/amelie/runtime/lib/timezone.h b/amelie/runtime/lib/timezone.h
index 571c402..c175d59 100644
--- a/amelie/runtime/lib/timezone.h
+++ b/amelie/runtime/lib/timezone.h
@@ -39,7 +39,7 @@ struct Timezone
 {
 	Str            name;
 	TimezoneHeader header;
-	uint32_t*      transition_times;
+	int32_t*       transition_times;
 	uint8_t*       transition_types;
 	TimezoneTime*  times;
 	HashtableNode  node;
-- 
2.43.0


From f36f0d348e49ae6a4548deecfad9c460b99f9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 013/142] fix: use the offset in force at the local time when
 converting timestamps to UTC

---
 amelie/runtime/lib/timestamp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 81f3f46..657910d 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -295,8 +295,12 @@ timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 	{
 		if (! zone_set)
 		{
+			// time is local, match the offset again using the time
+			// in UTC, it can be on the other side of the transition
 			auto tztime = timezone_match(timezone, time);
 			assert(tztime);
+			tztime = timezone_match(timezone, time - tztime->utoff);
+			assert(tztime);
 			time -= tztime->utoff;
 		}
 	} else
-- 
2.43.0


From 5ba4df9317734e7f3ffccdc4cdf30a123b0c3e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 014/142] fix: return -1, 0 or 1 from the string compare as the
 indexes expect

---
 amelie/runtime/base/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/str.h b/amelie/runtime/base/str.h
index daf5f98..e9f9805 100644
--- a/amelie/runtime/base/str.h
+++ b/amelie/runtime/base/str.h
@@ -178,7 +178,7 @@ str_compare_fn(const Str* a, const Str* b)
 		size = b_size;
 	auto rc = memcmp(a->pos, b->pos, size);
 	if (rc != 0)
-		return rc;
+		return (rc > 0) - (rc < 0);
 	return (a_size > b_size) - (a_size < b_size);
 }
 
-- 
2.43.0


From 05d8355d0e23ee762690df82aa2faf018b13df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 015/142] fix: continue with the next page when a tree index
 seek falls behind the page last row

---
 amelie/db/index/tree_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/index/tree_iterator.h b/amelie/db/index/tree_iterator.h
index 1fdf396..da679df 100644
--- a/amelie/db/index/tree_iterator.h
+++ b/amelie/db/index/tree_iterator.h
@@ -38,9 +38,14 @@ tree_iterator_open(TreeIterator* self, Row* key)
 	self->page_pos = pos.page_pos;
 	if (self->page_pos >= self->page->keys_count)
 	{
+		// key is greater than the last row of the page,
+		// continue with the next one
+		auto next = rbtree_next(&self->tree->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (unlikely(next == NULL))
+			return false;
+		self->page = container_of(next, TreePage, node);
 	}
 	self->current = self->page->rows[self->page_pos];
 	return match;
-- 
2.43.0


From 0aca342241fc9734541ec05018083a069a404c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 016/142] fix: reuse deleted hash index positions only when the
 key is not found, do not overflow on them

---
 amelie/db/index/hash_store.h | 52 +++++++++++++++---------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 8fea624..e86d2b5 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -59,34 +59,6 @@ hash_store_create(HashStore* self, Keys* keys, size_t size)
 	memset(self->rows, 0, allocated);
 }
 
-hot static inline Row*
-hash_store_set(HashStore* self, Row* key)
-{
-	uint64_t start = row_hash(key, self->keys) % self->size;
-	uint64_t pos   = start;
-	do
-	{
-		auto ref = self->rows[pos];
-		if (!ref || ref == HT_DELETED)
-		{
-			self->rows[pos] = key;
-			self->count++;
-			return NULL;
-		}
-
-		if (! compare(self->keys, ref, key))
-		{
-			self->rows[pos] = key;
-			return ref;
-		}
-
-		pos = (pos + 1) % self->size;
-	} while (start != pos);
-
-	error("hashtable overflow");
-	return false;
-}
-
 hot static inline Row*
 hash_store_delete(HashStore* self, Row* key)
 {
@@ -117,19 +89,25 @@ hash_store_delete(HashStore* self, Row* key)
 hot static inline Row*
 hash_store_get(HashStore* self, Row* key, uint64_t* at)
 {
+	// position is set to the first deleted or free position, when
+	// the key is not found
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	bool     deleted = false;
 	do
 	{
 		auto ref = self->rows[pos];
 		if (! ref)
 		{
-			*at = pos;
+			if (! deleted)
+				*at = pos;
 			return NULL;
 		}
 		if (ref == HT_DELETED)
 		{
-			*at = pos;
+			if (! deleted)
+				*at = pos;
+			deleted = true;
 		} else
 		{
 			if (! compare(self->keys, ref, key))
@@ -142,10 +120,22 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
+	if (unlikely(! deleted))
+		error("hashtable overflow");
 	return NULL;
 }
 
+hot static inline Row*
+hash_store_set(HashStore* self, Row* key)
+{
+	uint64_t pos  = 0;
+	auto     prev = hash_store_get(self, key, &pos);
+	self->rows[pos] = key;
+	if (! prev)
+		self->count++;
+	return prev;
+}
+
 hot static inline Row*
 hash_store_next(HashStore* self, uint64_t* at)
 {
-- 
2.43.0


From 2794268bae59dac653b5e9594cbc496e480d5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 017/142] fix: keep hash index collision chains during
 rehashing

---
 amelie/db/index/hash.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3802f17..2b08d69 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -78,7 +78,8 @@ hash_rehash(Hash* self)
 			continue;
 		}
 		hash_store_set(self->current, ref);
-		prev->rows[self->rehashing_pos] = NULL;
+		// keep the collision chain
+		prev->rows[self->rehashing_pos] = HT_DELETED;
 		prev->count--;
 
 		self->rehashing_pos++;
@@ -131,7 +132,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			{
 				// move to the current
 				self->current->rows[current_pos] = prev;
-				self->prev->rows[prev_pos] = NULL;
+				self->prev->rows[prev_pos] = HT_DELETED;
 				self->prev->count--;
 				self->current->count++;
 			}
-- 
2.43.0


From 957b010052c51122dfc66a5a13b05585df3ead23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 018/142] fix: do not switch the hash index table after the
 upsert position is taken

---
 amelie/db/index/hash.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 2b08d69..426f0da 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -118,6 +118,11 @@ hash_set(Hash* self, Row* key)
 hot static inline bool
 hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 {
+	// start rehashing before the position is taken, since it
+	// switches the current table
+	if (!self->rehashing && hash_store_is_full(self->current))
+		hash_rehash_start(self);
+
 	Row* prev = NULL;
 	if (self->rehashing)
 	{
@@ -156,13 +161,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			self->current->rows[current_pos] = key;
 			self->current->count++;
 		}
-
 		*pos = current_pos;
-		if (hash_store_is_full(self->current))
-		{
-			hash_rehash_start(self);
-			hash_rehash(self);
-		}
 	}
 
 	return prev != NULL;
-- 
2.43.0


From dcc604167a1a1f32ed6644d79ad67cd2a6486918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 019/142] fix: continue with the next partition in the hash
 index merge iterator

---
 amelie/db/index/index_hash_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/index_hash_merge.h b/amelie/db/index/index_hash_merge.h
index 4d65070..c4b2adc 100644
--- a/amelie/db/index/index_hash_merge.h
+++ b/amelie/db/index/index_hash_merge.h
@@ -81,7 +81,7 @@ index_hash_merge_next(Iterator* arg)
 	for (;;)
 	{
 		self->current_it_order++;
-		if (self->current_it_order < self->list_count)
+		if (self->current_it_order >= self->list_count)
 			break;
 		auto at = &list[self->current_it_order];
 		if (hash_iterator_has(at))
-- 
2.43.0


From 791de6546917993b6c06dd4e9f4527daa842137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 020/142] fix: report rows larger than the heap page instead of
 writing past it

---
 amelie/db/heap/heap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 4dc8868..ce35774 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -195,7 +195,12 @@ heap_add(Heap* self, int size)
 		heap = self;
 
 	// match bucket by size
+	int size_max = heap->page_mgr.page_size - sizeof(PageHeader);
+	if (unlikely(size > size_max - (int)sizeof(HeapChunk)))
+		error("heap: row is too large");
 	auto bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	if (unlikely(bucket->size > (uint32_t)size_max))
+		error("heap: row is too large");
 
 	// get chunk from the free list
 	HeapChunk* chunk;
-- 
2.43.0


From fe132316c609413bc81ab0a8ebb222656c38ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 021/142] fix: account shadow heap rows in the shadow heap
 header

---
 amelie/db/heap/heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index ce35774..5d3c4ed 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -260,8 +260,8 @@ heap_add(Heap* self, int size)
 	chunk->is_shadow_free = false;
 
 	// update total used metrics
-	self->header->count_used++;
-	self->header->size_used += bucket->size;
+	heap->header->count_used++;
+	heap->header->size_used += bucket->size;
 
 	// support lru (place chunk on top of the list)
 	if (self->lru)
-- 
2.43.0


From 972f69ec5552b1f65a72b298ccd9e89de8858480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 022/142] fix: detach partitions from the volumes on partition
 manager free

---
 amelie/db/part/part_mgr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 080dbf3..b742e3a 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -45,6 +45,7 @@ part_mgr_free(PartMgr* self)
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
+		part_mgr_remove(self, part);
 		part_free(part);
 	}
 	part_mapping_free(&self->mapping);
-- 
2.43.0


From 1d6e483385c6ed9af13f30f5bbadf6e0f532b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 023/142] fix: detach objects from the volumes on tier free

---
 amelie/db/tier/tier.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index f542478..8c1a98a 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -35,6 +35,7 @@ tier_free(Tier* self)
 	list_foreach_safe(&self->list)
 	{
 		auto object = list_at(Object, link);
+		tier_remove(self, object);
 		object_free(object);
 	}
 	am_free(self);
-- 
2.43.0


From a79f2d0b4724d4eb39b44dee5a6882bd24b00c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 024/142] fix: report unexpected size of the decompressed data
 as an error

---
 amelie/runtime/lib/codec_compression.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/lib/codec_compression.c b/amelie/runtime/lib/codec_compression.c
index c2b3f4a..30d2eb1 100644
--- a/amelie/runtime/lib/codec_compression.c
+++ b/amelie/runtime/lib/codec_compression.c
@@ -134,10 +134,11 @@ codec_zstd_decode(Codec*   codec,
                   int      src_size)
 {
 	unused(codec);
-	int rc = ZSTD_decompress(dst, dst_size, src, src_size);
+	size_t rc = ZSTD_decompress(dst, dst_size, src, src_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decode failed: %s", ZSTD_getErrorName(rc));
-	assert(rc == dst_size);
+	if (unlikely(rc != (size_t)dst_size))
+		error("zstd: decode failed: unexpected data size");
 }
 
 static CodecIf codec_zstd =
-- 
2.43.0


From 35ebe423cfbd3a65f372a88e4cec9990a86f8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 025/142] fix: do not move the sequence to negative identity
 values

---
 amelie/db/row/sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index 0966637..c96e64f 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -61,7 +61,7 @@ sequence_sync(Sequence* self, uint64_t value)
 {
 	spinlock_lock(&self->lock);
 	auto next = value + 1;
-	if (self->value < next)
+	if ((int64_t)self->value < (int64_t)next)
 		self->value = next;
 	spinlock_unlock(&self->lock);
 }
-- 
2.43.0


From d39c76f58998f07f3ff809c2d19bf72eb5bf9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 026/142] fix: validate page headers when reading the heap file

---
 amelie/db/heap/heap_file.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap_file.c b/amelie/db/heap/heap_file.c
index c927390..6cbadfb 100644
--- a/amelie/db/heap/heap_file.c
+++ b/amelie/db/heap/heap_file.c
@@ -109,6 +109,14 @@ heap_open(Heap* self, Id* id, int state)
 		file_read(&file, page->pointer, sizeof(PageHeader));
 		auto page_header = (PageHeader*)page->pointer;
 
+		// validate page header
+		if (page_header->order != i ||
+		    page_header->size <= sizeof(PageHeader) ||
+		    page_header->size > (uint32_t)page_mgr->page_size ||
+		    page_header->size_compressed > file.size)
+			error("heap: file '%s' page header is invalid",
+			      str_of(&file.path));
+
 		// decode page or read page as is
 		if (encoder_active(&ec))
 		{
@@ -153,6 +161,13 @@ heap_open(Heap* self, Id* id, int state)
 		return;
 	auto page = page_mgr_at(page_mgr, header->count - 1);
 	self->page_header = (PageHeader*)page->pointer;
-	self->last = page_mgr_pointer_of(page_mgr, header->count - 1,
-	                                 self->page_header->last);
+	auto last = self->page_header->last;
+	if (last < sizeof(PageHeader) ||
+	    last + sizeof(HeapChunk) > self->page_header->size)
+		error("heap: file '%s' page header is invalid",
+		      str_of(&file.path));
+	self->last = page_mgr_pointer_of(page_mgr, header->count - 1, last);
+	if (self->last->offset != last || !self->last->is_last)
+		error("heap: file '%s' page header is invalid",
+		      str_of(&file.path));
 }
-- 
2.43.0


From ec65c5681774b55ad6df4c62767f0a40c8fb7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 027/142] fix: recognize states of files without a version,
 remove their leftovers on recovery

---
 amelie/db/storage/id.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index 3f58677..038a959 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -80,14 +80,13 @@ id_of(const char* name, int64_t* id, int64_t* version)
 		return STATE_COMPLETE;
 
 	// .
-	name++;
-	if (unlikely(! *name))
+	if (unlikely(! name[1]))
 		return -1;
 
 	// <version>[.]
-	if (isdigit(*name))
+	if (isdigit(name[1]))
 	{
-		name = id_of_next(name, version);
+		name = id_of_next(name + 1, version);
 		if (! name)
 			return -1;
 	}
-- 
2.43.0


From 7f72f1a6c71c96d65bd935de2e3c0aa247beeda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 028/142] fix: commit prepared transactions before aborting the
 later ones, abort those run on top of them

---
 amelie/db/transaction/track.h | 21 ++++++++++++---------
 amelie/vm/executor/batch.h    | 14 ++++++++------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index eae2a3f..3b5cd2b 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -100,19 +100,22 @@ track_sync(Track* self, Consensus* consensus)
 {
 	auto consensus_pod = &self->consensus_pod;
 
-	// commit all transactions <= abort
-	auto id = consensus->abort;
-	if (unlikely(id > consensus_pod->abort))
-	{
-		tr_abort_list(&self->prepared, &self->cache, id);
-		consensus_pod->abort = id;
-	}
-
 	// commit all transactions <= commit
-	id = consensus->commit;
+	//
+	// note: transactions are completed in the order of execution, anything
+	// prepared after an aborted transaction is aborted with it
+	auto id = consensus->commit;
 	if (id > consensus_pod->commit)
 	{
 		tr_commit_list(&self->prepared, &self->cache, id);
 		consensus_pod->commit = id;
 	}
+
+	// abort all transactions <= abort
+	id = consensus->abort;
+	if (unlikely(id > consensus_pod->abort))
+	{
+		tr_abort_list(&self->prepared, &self->cache, id);
+		consensus_pod->abort = id;
+	}
 }
diff --git a/amelie/vm/executor/batch.h b/amelie/vm/executor/batch.h
index 9359045..c14e0ac 100644
--- a/amelie/vm/executor/batch.h
+++ b/amelie/vm/executor/batch.h
@@ -95,12 +95,10 @@ batch_process(Batch* self)
 			// collect unique partitions across batch
 			batch_add_partition(self, ltr);
 
-			// abort transaction if its partition transaction id lower then
-			// the partition abort id
-			auto track   = &ltr->part->track;
-			auto pending = &track->pending_consensus;
-			auto last    = &track->consensus;
-			if (pending->abort >= tr->id || last->abort >= tr->id)
+			// abort transaction if it was executed on top of an aborted
+			// transaction, which was not yet undone by the partition
+			auto pending = &ltr->part->track.pending_consensus;
+			if (pending->abort > ltr->consensus.abort)
 				dtr_set_abort(dtr);
 		}
 
@@ -142,6 +140,10 @@ batch_process(Batch* self)
 hot static inline void
 batch_abort(Batch* self)
 {
+	// revert commit ids, nothing of the batch is committed
+	for (auto ref = self->pending; ref; ref = ref->pending_link)
+		ref->pending_consensus.commit = ref->consensus.commit;
+
 	// abort all prepared transactions
 	for (auto it = 0; it < self->list_count; it++)
 	{
-- 
2.43.0


From 815b413316ae7e044f132252267e47297cb3c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 029/142] fix: keep wal files required by the slots with the
 minimum lsn

---
 amelie/db/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 019f238..880df27 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -50,7 +50,7 @@ wal_slots(Wal* self, uint64_t* min)
 	{
 		auto slot = list_at(WalSlot, link);
 		uint64_t lsn = atomic_u64_of(&slot->lsn);
-		if (*min < lsn)
+		if (lsn < *min)
 			*min = lsn;
 	}
 	mutex_unlock(&self->lock);
-- 
2.43.0


From eeaec54ea665543bc67fdf9aa9c05b5bc3f7034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 030/142] fix: use 64 bit offsets in wal file eof check

---
 amelie/db/wal/wal_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 47d183e..8d50af7 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_write(WalFile* self, Iov* iov)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
-- 
2.43.0


From e30ac8ff4ec6eb76e5c08a15ca152ceaeb78aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 031/142] fix: validate size of the wal record

---
 amelie/db/wal/wal_file.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 8d50af7..a57d54e 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -95,7 +95,15 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	uint32_t size_header = sizeof(Record);
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
-	uint32_t size = ((Record*)(buf->start + start))->size;
+	auto record = (Record*)(buf->start + start);
+	uint32_t size = record->size;
+
+	// validate record size (header + commands)
+	if (unlikely(size < size_header + (uint64_t)record->count * sizeof(RecordCmd)))
+	{
+		buf_truncate(buf, size_header);
+		error("wal/%" PRIu64 " (invalid record size)", self->id);
+	}
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
-- 
2.43.0


From 41caf5f03a1d3afbc2f9803217831b0f38926236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 032/142] fix: truncate incomplete record at the end of the
 last wal file on open

---
 amelie/db/wal/wal.c      | 10 ++++++++++
 amelie/db/wal/wal_file.h | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 880df27..d424632 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -280,6 +280,16 @@ reopen:
 	uint64_t last = id_mgr_max(&self->list);
 	self->current = wal_file_allocate(last);
 	wal_file_open(self->current);
+
+	// remove incomplete record left at the end of the file, otherwise
+	// records written after it would not be readable
+	auto end = wal_file_end(self->current);
+	if (end != self->current->file.size)
+	{
+		info("wal/%" PRIu64 " (incomplete record, truncated to %" PRIu64 " bytes)",
+		     last, end);
+		wal_file_truncate(self->current, end);
+	}
 	file_seek_to_end(&self->current->file);
 }
 
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index a57d54e..53c84ef 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -118,3 +118,23 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_data, offset + size_header);
 	return true;
 }
+
+static inline uint64_t
+wal_file_end(WalFile* self)
+{
+	// find the end of the last complete record
+	uint64_t offset = 0;
+	while (! wal_file_eof(self, offset, sizeof(Record)))
+	{
+		Record record;
+		file_pread(&self->file, &record, sizeof(record), offset);
+
+		// invalid records are reported on read
+		if (record.size < sizeof(Record))
+			return self->file.size;
+		if (wal_file_eof(self, offset, record.size))
+			break;
+		offset += record.size;
+	}
+	return offset;
+}
-- 
2.43.0


From 6d112b629092562c891c642c491ae02b2fe36741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 033/142] fix: create and switch wal files without concurrent
 writes

---
 amelie/db/wal/wal.c        | 15 +++++++++++----
 amelie/db/wal/wal.h        |  2 +-
 amelie/db/wal/wal_mgr.c    |  2 +-
 amelie/db/wal/wal_worker.c |  2 +-
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index d424632..399a2b7 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -68,8 +68,15 @@ wal_overflow(Wal* self)
 }
 
 void
-wal_create(Wal* self, uint64_t lsn)
+wal_create(Wal* self)
 {
+	// lsn must not be advanced until the file becomes current, otherwise
+	// records with the lsn >= file id would be written to the previous file
+	mutex_lock(&self->lock);
+	uint64_t lsn = 1;
+	if (self->current)
+		lsn = state_lsn() + 1;
+
 	// create new wal file
 	WalFile* file = NULL;
 	auto on_error = error_catch
@@ -84,12 +91,12 @@ wal_create(Wal* self, uint64_t lsn)
 			wal_file_close(file);
 			wal_file_free(file);
 		}
+		mutex_unlock(&self->lock);
 		rethrow();
 	}
-	id_mgr_add(&self->list, lsn);
 
 	// add to the list and set as current
-	mutex_lock(&self->lock);
+	id_mgr_add(&self->list, lsn);
 	auto file_prev = self->current;
 	self->current = file;
 	mutex_unlock(&self->lock);
@@ -260,7 +267,7 @@ reopen:
 	// create new wal file
 	if (! self->list.list_count)
 	{
-		wal_create(self, 1);
+		wal_create(self);
 		if (opt_int_of(&config()->wal_sync_on_create))
 			wal_sync(self, true);
 		return;
diff --git a/amelie/db/wal/wal.h b/amelie/db/wal/wal.h
index 8c36053..59fa6f7 100644
--- a/amelie/db/wal/wal.h
+++ b/amelie/db/wal/wal.h
@@ -29,7 +29,7 @@ void     wal_free(Wal*);
 void     wal_open(Wal*);
 void     wal_close(Wal*);
 bool     wal_overflow(Wal*);
-void     wal_create(Wal*, uint64_t);
+void     wal_create(Wal*);
 void     wal_gc(Wal*, uint64_t);
 void     wal_sync(Wal*, bool);
 bool     wal_write(Wal*, WriteList*);
diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index f0da7e3..852f847 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -94,7 +94,7 @@ wal_mgr_create(WalMgr* self)
 	{
 		if (opt_int_of(&config()->wal_sync_on_close))
 			wal_sync(&self->wal, false);
-		wal_create(&self->wal, state_lsn() + 1);
+		wal_create(&self->wal);
 		if (opt_int_of(&config()->wal_sync_on_create))
 			wal_sync(&self->wal, true);
 	}
diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index d3e40c5..275288f 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -48,7 +48,7 @@ wal_worker_main(void* arg)
 
 			// create new wal
 			if (events & WAL_CREATE)
-				wal_create(self->wal, state_lsn() + 1);
+				wal_create(self->wal);
 
 			// sync new wal and the directory
 			if (events & WAL_SYNC_CREATE)
-- 
2.43.0


From c4ed4876df9cb75b92b91e2c56a7f6b4b745bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 034/142] fix: sync records written to the wal file before the
 switch

---
 amelie/db/wal/wal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 399a2b7..60205a9 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -104,6 +104,11 @@ wal_create(Wal* self)
 	// close prev file
 	if (! file_prev)
 		return;
+	error_catch (
+		// sync records written to the file before it was switched
+		if (opt_int_of(&config()->wal_sync_on_close))
+			wal_file_sync(file_prev);
+	);
 	error_catch (
 		wal_file_close(file_prev);
 	);
-- 
2.43.0


From 031d72981567cba8ade7cf4eb4951b0f2b5a5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 035/142] fix: undo the wal write if its sync fails, sync
 before the file can be switched

---
 amelie/db/wal/wal.c     | 4 +++-
 amelie/db/wal/wal_mgr.c | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 60205a9..fac9e1f 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -365,7 +365,9 @@ wal_write(Wal* self, WriteList* list)
 	auto current = self->current;
 	auto current_offset = current->file.size;
 	auto on_error = error_catch(
-		list->lsn = wal_write_list(self, list)
+		list->lsn = wal_write_list(self, list);
+		if (opt_int_of(&config()->wal_sync_on_write))
+			wal_file_sync(current);
 	);
 	if (unlikely(on_error)) {
 		if (error_catch(wal_file_truncate(current, current_offset)))
diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index 852f847..a9283d8 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -106,8 +106,6 @@ wal_mgr_write(WalMgr* self, WriteList* write_list)
 	if (! write_list->list_count)
 		return;
 	auto wal_rotate = wal_write(&self->wal, write_list);
-	if (opt_int_of(&config()->wal_sync_on_write))
-		wal_sync(&self->wal, false);
 	if (wal_rotate)
 		wal_mgr_create(self);
 }
-- 
2.43.0


From b4f256f9641648da37ad48086440f4e628d93c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 036/142] fix: handle wal worker sync and shutdown requested
 together with create

---
 amelie/db/wal/wal_worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index 275288f..4978aa1 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -35,9 +35,10 @@ wal_worker_main(void* arg)
 		self->pending = 0;
 		mutex_unlock(&self->lock);
 
+		// skip only create, other events must be handled
 		if (events & WAL_CREATE)
 			if (! wal_overflow(self->wal))
-				continue;
+				events &= ~(WAL_CREATE | WAL_SYNC_CREATE);
 
 		// process events
 		error_catch
-- 
2.43.0


From 08b047948cea8ac95cec9a73e147d40d99fd0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 037/142] fix: read the rest of the wal file before switching
 to the next one

---
 amelie/db/wal/wal_cursor.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index 7c31223..09ee2e4 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -132,6 +132,10 @@ wal_cursor_read(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// file could be written before the next one was created
+		if (file_update_size(&file->file))
+			continue;
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
-- 
2.43.0


From 632090274e4c93d3cfc88bf2a54ae4a781038432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 038/142] fix: do not fail the wal write if the next wal file
 cannot be created

---
 amelie/db/wal/wal_mgr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index a9283d8..039f065 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -106,6 +106,8 @@ wal_mgr_write(WalMgr* self, WriteList* write_list)
 	if (! write_list->list_count)
 		return;
 	auto wal_rotate = wal_write(&self->wal, write_list);
+
+	// records are already written, create will be retried on next write
 	if (wal_rotate)
-		wal_mgr_create(self);
+		error_catch( wal_mgr_create(self) );
 }
-- 
2.43.0


From a3b5e2817f20438c3e590ca2b81683c5fa59f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 039/142] fix: keep hash table probing sequences on delete

---
 amelie/runtime/lib/hash_table.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/lib/hash_table.h b/amelie/runtime/lib/hash_table.h
index 11d343a..f83d2c2 100644
--- a/amelie/runtime/lib/hash_table.h
+++ b/amelie/runtime/lib/hash_table.h
@@ -94,6 +94,18 @@ hashtable_delete(Hashtable* self, HashtableNode* node)
 	assert(index[node->pos] == node);
 	index[node->pos] = NULL;
 	self->count--;
+
+	// put back nodes placed after, since their probing sequence
+	// could be interrupted by the removed node
+	uint32_t pos = (node->pos + 1) % self->size;
+	while (index[pos])
+	{
+		auto next = index[pos];
+		index[pos] = NULL;
+		self->count--;
+		hashtable_set(self, next);
+		pos = (pos + 1) % self->size;
+	}
 }
 
 hot static inline HashtableNode*
@@ -107,11 +119,6 @@ hashtable_get(Hashtable*       self,
 	for (;;)
 	{
 		auto current = index[pos];
-		/*
-		if (current == NULL || current->hash != hash)
-			break;
-			*/
-		/* todo: if first is deleted, second will not be found? */
 		if (current == NULL)
 			break;
 		if (current->hash == hash && compare(current, compare_arg))
-- 
2.43.0


From 29c2503271b3d3549ddf7a7a4bbe47ce2b504c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 040/142] fix: initialize histogram minimum with the maximum
 integer

---
 amelie/runtime/lib/histogram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/histogram.c b/amelie/runtime/lib/histogram.c
index de88a35..d117e23 100644
--- a/amelie/runtime/lib/histogram.c
+++ b/amelie/runtime/lib/histogram.c
@@ -41,7 +41,7 @@ void
 histogram_init(Histogram* self)
 {
 	memset(self, 0, sizeof(*self));
-	self->min = INFINITY;
+	self->min = UINT64_MAX;
 }
 
 hot void
-- 
2.43.0


From 3e553bcc5980ab925e62133ee6d51cc4d0959eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 041/142] fix: free buffers above the cache limit

---
 amelie/runtime/base/buf_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/buf_cache.h b/amelie/runtime/base/buf_cache.h
index da40628..be7abab 100644
--- a/amelie/runtime/base/buf_cache.h
+++ b/amelie/runtime/base/buf_cache.h
@@ -56,7 +56,7 @@ buf_cache_pop(BufCache* self)
 static inline void
 buf_cache_push(BufCache* self, Buf* buf)
 {
-	if (unlikely(buf_capacity(buf)) >= self->limit_buf)
+	if (unlikely(buf_capacity(buf) >= self->limit_buf))
 	{
 		buf_free_memory(buf);
 		return;
-- 
2.43.0


From cabc89b8ffdfac930ac6bf93c4b0965960787d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 042/142] fix: do not authenticate altered tokens by their
 cached digest

---
 amelie/server/auth/auth.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 5487726..6b27e4d 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -49,8 +49,11 @@ auth_run(Auth* self, Str* token)
 
 	int64_t now = time_ms() / 1000;
 
-	// check auth cache, if the digest is already authenticated
-	auto user_ref = auth_cache_find(&self->cache, &jwt->digest);
+	// check auth cache, if the token is already authenticated
+	//
+	// the whole token is used as a key, since its digest alone does not
+	// cover altered header or payload
+	auto user_ref = auth_cache_find(&self->cache, token);
 	if (user_ref)
 	{
 		// ensure cached token has not expired
@@ -94,8 +97,8 @@ auth_run(Auth* self, Str* token)
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-	// add user and token digest to the cache
-	auth_cache_add(&self->cache, user, &jwt->digest, exp);
+	// add user and token to the cache
+	auth_cache_add(&self->cache, user, token, exp);
 	return user;
 }
 
-- 
2.43.0


From 1b5ba99ec8d9bc75eb33d9ef2675d2dd4b05ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 043/142] fix: free expired token on removal from the auth
 cache

---
 amelie/server/auth/auth_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/server/auth/auth_cache.c b/amelie/server/auth/auth_cache.c
index 357b074..96f9895 100644
--- a/amelie/server/auth/auth_cache.c
+++ b/amelie/server/auth/auth_cache.c
@@ -78,6 +78,7 @@ void
 auth_cache_del(AuthCache* self, AuthCacheNode* node)
 {
 	hashtable_delete(&self->ht, &node->node);
+	auth_cache_node_free(node);
 }
 
 hot static inline bool
-- 
2.43.0


From 0c3c27f5c00105ee45a5ddc62467d63797780e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 044/142] fix: refuse tokens of users without a secret

---
 amelie/server/auth/jwt_decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/auth/jwt_decode.c b/amelie/server/auth/jwt_decode.c
index 4075dc8..b21c56c 100644
--- a/amelie/server/auth/jwt_decode.c
+++ b/amelie/server/auth/jwt_decode.c
@@ -160,6 +160,10 @@ jwt_decode_data(JwtDecode* self, Str* sub,
 hot void
 jwt_decode_validate(JwtDecode* self, Str* secret)
 {
+	// user without a secret cannot be authenticated
+	if (unlikely(str_empty(secret)))
+		error("jwt: user secret is not set");
+
 	// decode digest from base64url
 	buf_reset(&self->data);
 	base64url_decode(&self->data, &self->digest);
-- 
2.43.0


From dea6f956fe16ed3cc924940237b703355baad8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:36 +0000
Subject: [PATCH 045/142] fix: replace the state file atomically

---
 amelie/runtime/runtime/state.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/amelie/runtime/runtime/state.c b/amelie/runtime/runtime/state.c
index ec5d5ac..043097f 100644
--- a/amelie/runtime/runtime/state.c
+++ b/amelie/runtime/runtime/state.c
@@ -78,31 +78,19 @@ state_save_to(State* self, const char* path)
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
+	file_open_as(&file, path, O_CREAT|O_RDWR|O_TRUNC, 0600);
 	file_write_buf(&file, &text);
+	file_sync(&file);
 }
 
 void
 state_save(State* self, const char* path)
 {
-	if (! fs_exists("%s", path))
-	{
-		state_save_to(self, path);
-		return;
-	}
-
-	// remove old saved state, if exists
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing state as a old
-	fs_rename(path, "%s.old", path);
-
-	// create state file
-	state_save_to(self, path);
-
-	// remove old state file
-	fs_unlink("%s.old", path);
+	// create new state file and atomically replace the existing one
+	char path_new[PATH_MAX];
+	sfmt(path_new, sizeof(path_new), "%s.incomplete", path);
+	state_save_to(self, path_new);
+	fs_rename(path_new, "%s", path);
 }
 
 void
-- 
2.43.0


From 484468e993c4225e3c762e9c038e33a491533796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 046/142] fix: export the secret and not the user name as the
 uri password

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index bbf8c3e..e5c7d63 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -448,7 +448,7 @@ uri_export(Endpoint* self, Buf* buf)
 		if (! opt_string_empty(&self->secret))
 		{
 			buf_write(buf, ":", 1);
-			buf_write_str(buf, &self->user.string);
+			buf_write_str(buf, &self->secret.string);
 		}
 		buf_write(buf, "@", 1);
 	}
-- 
2.43.0


From 2d0d7c6df130867cd8746dd9413586ff86eee65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 047/142] fix: percent-encode exported uri arguments

---
 amelie/server/http/uri.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index e5c7d63..5c11806 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -416,9 +416,19 @@ uri_export_arg(Opt* opt, Buf* buf, bool* first)
 	if (opt_string_empty(opt))
 		return;
 	// [?|&]name=value
-	buf_printf(buf, "%c%s=%.*s", *first? '?': '&',
-	           str_of(&opt->name),
-	           str_size(&opt->string), str_of(&opt->string));
+	buf_printf(buf, "%c%s=", *first? '?': '&',
+	           str_of(&opt->name));
+
+	// percent-encode reserved characters
+	auto pos = str_of(&opt->string);
+	auto end = pos + str_size(&opt->string);
+	for (; pos < end; pos++)
+	{
+		if (isalnum((uint8_t)*pos) || (*pos && strchr("-._~,/:", *pos)))
+			buf_write(buf, pos, 1);
+		else
+			buf_printf(buf, "%%%02X", (uint8_t)*pos);
+	}
 	*first = false;
 }
 
-- 
2.43.0


From af9855bc683787d69d9f25fd50ba3e7a6b3b05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 048/142] fix: export ipv6 uri host in brackets

---
 amelie/server/http/uri.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 5c11806..970132b 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -468,7 +468,14 @@ uri_export(Endpoint* self, Buf* buf)
 	{
 		if (! opt_string_empty(&self->host))
 		{
-			buf_write_str(buf, &self->host.string);
+			// use brackets for the ipv6 address
+			auto host = opt_string_of(&self->host);
+			auto ipv6 = memchr(str_of(host), ':', str_size(host)) != NULL;
+			if (ipv6)
+				buf_write(buf, "[", 1);
+			buf_write_str(buf, host);
+			if (ipv6)
+				buf_write(buf, "]", 1);
 			buf_write(buf, ":", 1);
 			buf_printf(buf, "%d", (int)self->port.integer);
 		}
-- 
2.43.0


From 7077c0b663f87e136c5d0b8e568c4195bc6855be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 049/142] fix: do not free the uri while parsing it by the uri
 argument

---
 amelie/server/http/uri.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 970132b..e895691 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -248,8 +248,10 @@ uri_parse_args_set(Uri* self, Buf* buf, int name_size, int value_size)
 	str_set(&value, buf_cstr(buf) + name_size, value_size);
 
 	// find and set endpoint option
+	//
+	// uri option holds the string which is being parsed
 	auto opt = opts_find(&self->endpoint->opts, &name);
-	if (! opt)
+	if (!opt || opt == &self->endpoint->uri)
 		error("unknown uri argument '%.*s'", str_size(&name),
 		      str_of(&name));
 
-- 
2.43.0


From 65543731c5aa3fc93a54bbc9cad248257c575d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 050/142] fix: do not search for the uri user in the path and
 arguments

---
 amelie/server/http/uri.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index e895691..3b350cc 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -57,9 +57,9 @@ uri_parse_protocol(Uri* self)
 static inline void
 uri_parse_user(Uri* self)
 {
-	// [user[:password]@]
-	char* at = strstr(self->pos, "@");
-	if (! at)
+	// [user[:password]@] (before path and arguments)
+	char* at = strpbrk(self->pos, "@/?");
+	if (!at || *at != '@')
 		return;
 	if (unlikely(at == self->pos))
 		uri_error();
-- 
2.43.0


From 6425b25535fb58b45c1b41a61fe3fc46e60d88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 051/142] fix: reject uri port above 65535

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 3b350cc..f446692 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -129,7 +129,7 @@ uri_parse_host(Uri* self)
 				uri_error();
 			self->pos++;
 		}
-		if (start == self->pos)
+		if (start == self->pos || port > UINT16_MAX)
 			uri_error();
 
 		// set port
-- 
2.43.0


From fb4d93b18f2dcb00bfa5ef1e5aefde091b800585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 052/142] fix: do not parse http header fields across lines

---
 amelie/server/http/http.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 5d77933..c1e295d 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -145,9 +145,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 	}
 
 	// a
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos != ' '))
 		goto error;
 	str_set_u8(a, start, pos - start);
 	pos++;
@@ -156,9 +156,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 	// b
 	start = pos;
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos != ' '))
 		goto error;
 	str_set_u8(b, start, pos - start);
 	pos++;
@@ -194,9 +194,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 		// <name>: value\r\n
 		start = pos;
-		while (pos < end && *pos != ':')
+		while (pos < end && *pos != ':' && *pos != '\r')
 			pos++;
-		if (unlikely(pos == end))
+		if (unlikely(pos == end || *pos != ':'))
 			goto error;
 		str_set_u8(&header->name, start, pos - start);
 		pos++;
-- 
2.43.0


From ab4da731f7484fdeb461b69a4bcc2398e38edfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 053/142] fix: make http header limit independent from read
 sizes

---
 amelie/server/http/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index c1e295d..dc096bb 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -103,6 +103,10 @@ http_read_header(Http* self, Readahead* readahead)
 		uint8_t* end = memmem(start, buf_size(&self->raw), "\r\n\r\n", 4);
 		if (end)
 		{
+			// the limit must not depend on the size of reads
+			if (unlikely((end + 4) - start > 512))
+				error("HTTP header size limit exceeded");
+
 			int before_truncate = buf_size(&self->raw);
 			self->raw.position = end + 4;
 
-- 
2.43.0


From 24e0d366de467247194277464f896acf5b565889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 054/142] fix: reject negative and oversized http content
 length

---
 amelie/server/http/http.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index dc096bb..ab44303 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -237,12 +237,15 @@ http_read_content_limit(Http* self, Readahead* readahead, Buf* content,
 		return false;
 
 	int64_t len;
-	if (unlikely(str_toint(&content_len->value, &len) == -1))
+	if (unlikely(str_toint(&content_len->value, &len) == -1 || len < 0))
 		error("failed to parse HTTP request");
 
 	if (unlikely((uint64_t)len >= limit))
 		return true;
 
+	if (unlikely(len >= INT32_MAX))
+		error("HTTP content size limit exceeded");
+
 	buf_reserve(content, len + 1);
 	for (;;)
 	{
-- 
2.43.0


From 570d964e17f4f3956fea36936ec493498cff0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 055/142] fix: write the space between Bearer and the token

---
 amelie/server/http/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index ab44303..6082ad3 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -318,7 +318,7 @@ http_begin_request(Http* self, Endpoint* endpoint, uint64_t size)
 	auto token = opt_string_of(&endpoint->token);
 	if (! str_empty(token))
 	{
-		buf_write(buf, "Authorization: Bearer ", 21);
+		buf_write(buf, "Authorization: Bearer ", 22);
 		buf_write_str(buf, token);
 		buf_write(buf, "\r\n", 2);
 	}
-- 
2.43.0


From 02461986be9291ebb24d4f340fbb64eb51a6dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 056/142] fix: refuse an empty uri

---
 amelie/server/http/uri.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index f446692..eff1e07 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -350,6 +350,9 @@ uri_parse_args(Uri* self)
 void
 uri_parse(Endpoint* endpoint, Str* spec)
 {
+	if (str_empty(spec))
+		uri_error();
+
 	// set uri
 	opt_string_set(&endpoint->uri, spec);
 	Uri self = {
-- 
2.43.0


From 3e6c2c1b196d856fb263a6c12760eb4d18d60f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 057/142] fix: open tier objects before mapping them, create
 one initial object

---
 amelie/db/object/mapping.h |  2 +-
 amelie/db/tier/tier.c      | 32 +++++++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/amelie/db/object/mapping.h b/amelie/db/object/mapping.h
index b9a1873..13e1fe2 100644
--- a/amelie/db/object/mapping.h
+++ b/amelie/db/object/mapping.h
@@ -68,7 +68,7 @@ mapping_add(Mapping* self, Object* object)
 {
 	const auto key = branch_min(object->root);
 	RbtreeNode* node;
-	auto rc = mapping_find(&self->tree, NULL, key, &node);
+	auto rc = mapping_find(&self->tree, self, key, &node);
 	if (rc == 0 && node)
 		assert(0);
 	rbtree_set(&self->tree, node, rc, &object->link_mapping);
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index 8c1a98a..6dd4255 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -127,7 +127,7 @@ tier_create(Volume* volume)
 }
 
 static void
-tier_open_volume(Tier* self, Volume* volume)
+tier_open_volume(Tier* self, Volume* volume, bool create)
 {
 	// <base>/storage/<volume_id>
 	char id[UUID_SZ];
@@ -136,7 +136,13 @@ tier_open_volume(Tier* self, Volume* volume)
 	char path[PATH_MAX];
 	sfmt(path, PATH_MAX, "%s/storage/%s", state_directory(), id);
 	if (! fs_exists("%s", path))
-		tier_create(volume);
+	{
+		// initial object is created only once for the tier
+		if (create)
+			tier_create(volume);
+		else
+			volume_mkdir(volume);
+	}
 
 	// read directory
 	auto dir = opendir(path);
@@ -172,13 +178,13 @@ tier_open_volume(Tier* self, Volume* volume)
 		switch (state) {
 		case STATE_COMPLETE:
 		{
-			// add object to the tier
-			auto object = object_allocate(&id);
-			tier_add(self, object);
-
 			// recover branches
+			auto object = object_allocate(&id);
+			errdefer(object_free, object);
 			object_open(object, STATE_COMPLETE);
 
+			// add object to the tier (mapped by its root branch)
+			tier_add(self, object);
 			break;
 		}
 		case STATE_INCOMPLETE:
@@ -198,10 +204,22 @@ tier_open(Tier* self, StorageMgr* storage_mgr)
 	// resolve storages
 	volume_mgr_ref(&self->config->volumes, storage_mgr);
 
+	// check if the tier has been created before
+	auto create = true;
+	list_foreach(&self->config->volumes.list)
+	{
+		auto volume = list_at(Volume, link);
+		char id[UUID_SZ];
+		uuid_get(&volume->id, id, sizeof(id));
+		if (fs_exists("%s/storage/%s", state_directory(), id))
+			create = false;
+	}
+
 	// recover volumes
 	list_foreach(&self->config->volumes.list)
 	{
 		auto volume = list_at(Volume, link);
-		tier_open_volume(self, volume);
+		tier_open_volume(self, volume, create);
+		create = false;
 	}
 }
-- 
2.43.0


From 7552cef9c59d9e5c643f14c2f081c99c617300b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 058/142] fix: check the crc of the stored index of a branch

---
 amelie/db/object/object.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 552f5ca..37197af 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -46,9 +46,10 @@ object_free(Object* self)
 }
 
 static void
-object_validate_index(Object* self, Branch* branch)
+object_validate_index(Object* self, Branch* branch, Buf* buf)
 {
-	uint32_t crc = runtime()->crc(0, branch->meta_data.start, buf_size(&branch->meta_data));
+	// crc of the stored (compressed) index data
+	uint32_t crc = runtime()->crc(0, buf->start, buf_size(buf));
 	if (crc != branch->meta.crc_data)
 		error("object: file meta data '%s' crc mismatch",
 		      str_of(&self->file.path));
@@ -73,7 +74,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	if (! encoder_active(&encoder))
 	{
 		file_pread_buf(file, meta_data, meta->size, offset);
-		object_validate_index(self, branch);
+		object_validate_index(self, branch, meta_data);
 		return;
 	}
 
@@ -81,7 +82,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto buf = buf_create();
 	defer_buf(buf);
 	file_pread_buf(file, buf, meta->size, offset);
-	object_validate_index(self, branch);
+	object_validate_index(self, branch, buf);
 
 	// decompress index
 	buf_emplace(meta_data, meta->size_origin);
@@ -150,7 +151,7 @@ object_open(Object* self, int state)
 
 	// cut branches that are not represented in its versions id
 	// (compaction crash)
-	if (offset == self->file.size)
+	if (offset != self->file.size)
 	{
 		file_truncate(&self->file, offset);
 		if (opt_int_of(&config()->storage_sync))
-- 
2.43.0


From 4d3db685852c217f5f15b870e2c0b7bcbf93cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 059/142] fix: release and remove volumes of a table that could
 not be created

---
 amelie/db/part/part_mgr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index b742e3a..28ae32c 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -97,9 +97,7 @@ part_mgr_close(PartMgr* self)
 void
 part_mgr_drop(PartMgr* self)
 {
-	if (! self->list_count)
-		return;
-
+	// note: there are no partitions if the create has failed
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
-- 
2.43.0


From 7863b926fad93b59e778b96db4957c0971ed89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 060/142] fix: keep tier region and object sizes above 2GB

---
 amelie/db/tier/tier_config.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/tier/tier_config.h b/amelie/db/tier/tier_config.h
index e1406fe..2a94652 100644
--- a/amelie/db/tier/tier_config.h
+++ b/amelie/db/tier/tier_config.h
@@ -62,13 +62,13 @@ tier_config_set_name(TierConfig* self, Str* name)
 }
 
 static inline void
-tier_config_set_region_size(TierConfig* self, int value)
+tier_config_set_region_size(TierConfig* self, int64_t value)
 {
 	self->region_size = value;
 }
 
 static inline void
-tier_config_set_object_size(TierConfig* self, int value)
+tier_config_set_object_size(TierConfig* self, int64_t value)
 {
 	self->object_size = value;
 }
-- 
2.43.0


From fdea3b5c40abfe8f8b437c1a906fe48f9d0a610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 061/142] fix: keep dropped columns dropped when a table is
 loaded

---
 amelie/db/row/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/row/column.h b/amelie/db/row/column.h
index ceefd95..28c4128 100644
--- a/amelie/db/row/column.h
+++ b/amelie/db/row/column.h
@@ -77,6 +77,7 @@ column_copy(Column* self)
 	auto copy = column_allocate();
 	column_set_name(copy, &self->name);
 	column_set_type(copy, self->type, self->type_size);
+	column_set_dropped(copy, self->dropped);
 	constraints_copy(&self->constraints, &copy->constraints);
 	return copy;
 }
-- 
2.43.0


From 2c00668bdbcf3a7c306bb71e3699ea205afb5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 062/142] fix: undo the created index on abort

---
 amelie/db/catalog/table_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 52cc877..1c28362 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -62,7 +62,7 @@ table_index_add(Table* self, Tr* tr, IndexConfig* config)
 	table_config_index_add(self->config, config);
 
 	// update table
-	log_relation(&tr->log, &add_if, index, &self->rel);
+	log_relation(&tr->log, &add_if, config, &self->rel);
 
 	// use separate log command for create
 	// index processing
-- 
2.43.0


From 37c85de71bc2b90c4fbd80166da2acddbcdd0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 063/142] fix: do not drop the primary index

---
 amelie/db/catalog/table_index.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 1c28362..6fc47c6 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -109,6 +109,13 @@ table_index_drop(Table* self,
 		return false;
 	}
 
+	if (index->primary)
+		error("table '%.*s' index '%.*s': primary index cannot be dropped",
+		      str_size(&self->config->name),
+		      str_of(&self->config->name),
+		      str_size(name),
+		      str_of(name));
+
 	// update table
 	log_relation(&tr->log, &drop_if, index, &self->rel);
 	return true;
-- 
2.43.0


From 6e2577ac4aa7614a847691a5a58727b8b8850d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 064/142] fix: restore the name of a storage as it was

---
 amelie/db/storage/storage_mgr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/storage/storage_mgr.c b/amelie/db/storage/storage_mgr.c
index 8d9c68f..b8b30d1 100644
--- a/amelie/db/storage/storage_mgr.c
+++ b/amelie/db/storage/storage_mgr.c
@@ -137,7 +137,7 @@ storage_mgr_rename(StorageMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &storage->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &storage->config->name);
 
 	// set new name
 	storage_config_set_name(storage->config, name_new);
-- 
2.43.0


From f5e63689b1e7973a8bf400692b51b61bfa89d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 065/142] fix: restore the name of a database as it was

---
 amelie/db/catalog/database_mgr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/database_mgr.c b/amelie/db/catalog/database_mgr.c
index 71eeb97..ac68a6a 100644
--- a/amelie/db/catalog/database_mgr.c
+++ b/amelie/db/catalog/database_mgr.c
@@ -134,7 +134,7 @@ database_mgr_rename(DatabaseMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &db->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &db->config->name);
 
 	// set new name
 	database_config_set_name(db->config, name_new);
-- 
2.43.0


From fef575ab8bb410a68b3f0f2ec8af9589524a1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 066/142] fix: restore the previous value of unlogged on abort

---
 amelie/db/catalog/table_mgr_alter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_mgr_alter.c b/amelie/db/catalog/table_mgr_alter.c
index da57bc7..958dd8d 100644
--- a/amelie/db/catalog/table_mgr_alter.c
+++ b/amelie/db/catalog/table_mgr_alter.c
@@ -152,7 +152,10 @@ set_unlogged_if_abort(Log* self, LogOp* op)
 {
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
-	table_set_unlogged(table, !table->config->unlogged);
+	uint8_t* pos = relation->data;
+	bool value;
+	json_read_bool(&pos, &value);
+	table_set_unlogged(table, value);
 }
 
 static LogIf set_unlogged_if =
@@ -181,6 +184,9 @@ table_mgr_set_unlogged(TableMgr* self,
 	// update table
 	log_relation(&tr->log, &set_unlogged_if, NULL, &table->rel);
 
+	// save previous value
+	encode_bool(&tr->log.data, table->config->unlogged);
+
 	// set table and partitions as unlogged
 	table_set_unlogged(table, value);
 	return true;
-- 
2.43.0


From d99ddf82e6879d817bbd892b32b8f587a5c38f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 067/142] fix: remove the files of a tier when its create is
 aborted

---
 amelie/db/catalog/table_tier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 7c49393..60d5e9a 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -54,7 +54,7 @@ create_if_abort(Log* self, LogOp* op)
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
 	Tier* tier = op->iface_arg;
-	table_tier_delete(table, tier, false);
+	table_tier_delete(table, tier, true);
 }
 
 static LogIf create_if =
-- 
2.43.0


From b502958a4deaf0d327e3e0506e1ddd3b5f18443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 068/142] fix: keep objects of other storages when a tier
 storage is dropped

---
 amelie/db/catalog/table_tier.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 60d5e9a..b5bad2c 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -308,7 +308,6 @@ storage_drop_if_commit(Log* self, LogOp* op)
 
 	auto volume = volume_mgr_find(&tier->config->volumes, &storage_name);
 	assert(volume);
-	tier_truncate(tier);
 	error_catch (
 		volume_rmdir(volume);
 	);
-- 
2.43.0


From f9b757ffdd0d280d5a142c72efee480496d379ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 069/142] fix: do not drop the last active storage of a tier

---
 amelie/db/catalog/table_tier.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index b5bad2c..9544187 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -365,6 +365,14 @@ table_tier_storage_drop(Table* self,
 		return false;
 	}
 
+	// ensure at least one volume is still active
+	if (!volume->pause && volume_mgr_count(&tier->config->volumes) <= 1)
+		error("table '%.*s' tier '%.*s': at least one storage must remain active",
+		      str_size(&self->config->name),
+		      str_of(&self->config->name),
+		      str_size(name),
+		      str_of(name));
+
 	// ensure volume has no deps
 	if (volume->list_count > 0)
 		error("table '%.*s' tier '%.*s' storage '%.*s': is not empty",
-- 
2.43.0


From fd85b3c28e1245fae2311524b773d18a6100be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 070/142] fix: open an empty branch of a storage without
 compression

---
 amelie/db/object/object.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 37197af..20ca851 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -63,6 +63,10 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto meta_data = &branch->meta_data;
 	offset -= meta->size;
 
+	// branch is empty
+	if (! meta->regions)
+		return;
+
 	// prepare encoder
 	Encoder encoder;
 	encoder_init(&encoder);
-- 
2.43.0


From d5f2b4efebc78cf3251f01c4ba1ee37a632c362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 071/142] fix: count all stored parts of regions and index when
 not compressed

---
 amelie/db/object/meta_writer.h | 4 ++--
 amelie/db/storage/encoder.h    | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index ad30d9e..9fab4a7 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -90,7 +90,7 @@ meta_writer_stop(MetaWriter* self)
 	meta->magic             = META_MAGIC;
 	meta->version           = META_VERSION;
 	meta->size_origin       = meta->size;
-	meta->size              = encoder_iov(encoder)->iov_len;
+	meta->size              = encoder_iov_size(encoder);
 	meta->size_total        =
 		meta->size_regions + meta->size + sizeof(Meta);
 	meta->size_total_origin =
@@ -109,7 +109,7 @@ meta_writer_add(MetaWriter*   self,
 	assert(region->rows > 0);
 
 	// get region size
-	uint32_t size = encoder_iov(&region_writer->encoder)->iov_len;
+	uint32_t size = encoder_iov_size(&region_writer->encoder);
 
 	// calculate region crc
 	uint32_t crc = 0;
diff --git a/amelie/db/storage/encoder.h b/amelie/db/storage/encoder.h
index 1a120a6..db5e794 100644
--- a/amelie/db/storage/encoder.h
+++ b/amelie/db/storage/encoder.h
@@ -114,6 +114,12 @@ encoder_iov_count(Encoder* self)
 	return self->iov.iov_count;
 }
 
+static inline uint32_t
+encoder_iov_size(Encoder* self)
+{
+	return self->iov.size;
+}
+
 static inline uint32_t
 encoder_iov_crc(Encoder* self)
 {
-- 
2.43.0


From 06218fe5a2e02560a137fe9bf7aef3f1f699d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 072/142] fix: restore functions which depend on functions
 created later

---
 amelie/db/catalog/catalog_file.c | 42 +++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/amelie/db/catalog/catalog_file.c b/amelie/db/catalog/catalog_file.c
index a89f867..355b672 100644
--- a/amelie/db/catalog/catalog_file.c
+++ b/amelie/db/catalog/catalog_file.c
@@ -100,6 +100,44 @@ catalog_restore_object(Catalog* self, int type, uint8_t** pos)
 	}
 }
 
+static void
+catalog_restore_udfs(Catalog* self, uint8_t* pos)
+{
+	// function can depend on a function created after it (because of replace),
+	// retry until all dependencies are restored
+	for (;;)
+	{
+		int  restored = 0;
+		int  failed   = 0;
+		auto at       = pos;
+		json_read_array(&at);
+		while (! json_read_array_end(&at))
+		{
+			auto start = at;
+			json_skip(&at);
+
+			// already restored
+			auto pos_config = start;
+			auto config = udf_config_read(&pos_config);
+			auto exists = udf_mgr_find(&self->udf_mgr, &config->db, &config->name, false);
+			udf_config_free(config);
+			if (exists)
+				continue;
+
+			if (error_catch (
+				catalog_restore_object(self, RESTORE_UDF, &start);
+			))
+				failed++;
+			else
+				restored++;
+		}
+		if (! failed)
+			break;
+		if (! restored)
+			rethrow();
+	}
+}
+
 static void
 catalog_restore(Catalog* self, uint8_t** pos)
 {
@@ -136,9 +174,7 @@ catalog_restore(Catalog* self, uint8_t** pos)
 		catalog_restore_object(self, RESTORE_TABLE, &pos_tables);
 
 	// udfs
-	json_read_array(&pos_udfs);
-	while (! json_read_array_end(&pos_udfs))
-		catalog_restore_object(self, RESTORE_UDF, &pos_udfs);
+	catalog_restore_udfs(self, pos_udfs);
 
 	// set catalog lsn
 	opt_int_set(&state()->catalog, lsn);
-- 
2.43.0


From a9f3d5465bc22a4dfb1317bdd2bc94b7682805b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 073/142] fix: free rows of a truncated partition

---
 amelie/db/part/part.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index 428027f..d1216c8 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -84,6 +84,17 @@ part_open(Part* self)
 void
 part_truncate(Part* self)
 {
+	// complete prepared transactions (they refer to the rows)
+	track_sync(&self->track, &self->track.consensus);
+
+	// free rows
+	auto it = index_iterator(part_primary(self));
+	defer(iterator_close, it);
+	iterator_open(it, NULL);
+	for (; iterator_has(it); iterator_next(it))
+		row_free(self->heap, iterator_at(it));
+
+	// truncate indexes
 	for (auto index = self->indexes; index; index = index->next)
 		index_truncate(index);
 }
-- 
2.43.0


From ea45a7137a41e4b7a6b0d337200927cc33ad514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 074/142] fix: do not lose a signal received after the wait has
 timed out

---
 amelie/runtime/base/wait.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index aba9402..e1d08cd 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -65,7 +65,8 @@ wait_event_time(Event* event, TimerMgr* timer_mgr, Coroutine* coro, int time_ms)
 	coroutine_suspend(coro);
 	event->wait = NULL;
 
-	bool timedout = time_ms > 0 && !timer.active;
+	// the event could be signalled after the timer has fired
+	bool timedout = time_ms > 0 && !timer.active && !event->signal;
 	if (unlikely(timer.active))
 		timer_stop(&timer);
 
-- 
2.43.0


From 8875c9e842d6b40bcb6e27d737feea74cbecdd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 075/142] fix: do not reset the exit event of a reused
 coroutine

---
 amelie/runtime/base/wait.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index e1d08cd..cef02f5 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -40,6 +40,10 @@ wait_event(Event* event, Coroutine* coro)
 	event->wait = coro;
 	// wait for signal
 	coroutine_suspend(coro);
+
+	// the event of an exited coroutine could be already reused
+	if (event->wait != coro)
+		return;
 	event->wait   = NULL;
 	event->signal = false;
 }
-- 
2.43.0


From 5cc902deda6253901b08bad4b60d69c541eed01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 076/142] fix: release the lock of a coroutine cancelled while
 waiting for it

---
 amelie/runtime/runtime/lock_mgr.h | 74 +++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 4ed464b..a2f2125 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -81,11 +81,58 @@ lock_resolve(Relation* rel, LockId lock)
 	return false;
 }
 
+hot static inline void
+lock_mgr_wakeup(Relation* rel)
+{
+	// batch wakeup non-conflicting waiters
+	while (rel->lock_wait_count > 0)
+	{
+		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
+		if (! lock_resolve(rel, lock->rel_lock))
+			break;
+		rel->lock_set[lock->rel_lock]++;
+		rel->lock_wait_count--;
+		lock->waiting = false;
+		list_unlink(&lock->link);
+		event_signal(&lock->event);
+	}
+}
+
+static inline void
+lock_mgr_cancel(LockMgr* self, Lock* lock)
+{
+	// cancelled during wait
+	auto rel = lock->rel;
+	spinlock_lock(&rel->lock);
+	if (lock->waiting)
+	{
+		list_unlink(&lock->link);
+		rel->lock_wait_count--;
+		lock->waiting = false;
+	} else {
+		// granted, but not taken
+		rel->lock_set[lock->rel_lock]--;
+	}
+	lock_mgr_remove(self, lock);
+	lock_mgr_wakeup(rel);
+	spinlock_unlock(&rel->lock);
+
+	// receive the event, if it is still on its way
+	while (atomic_u32_of(&lock->event.ipc.refs) > 0)
+		wait_event(&lock->event, am_self());
+
+	lock_free(lock);
+}
+
 hot static inline void
 lock_mgr_lock_of(LockMgr* self, Lock* lock)
 {
 	auto rel = lock->rel;
 
+	// lock can be granted as soon as it is added to the wait list
+	auto event = &lock->event;
+	event_attach(event);
+
 	// try to lock the relation
 	spinlock_lock(&rel->lock);
 
@@ -111,9 +158,11 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		auto event = &lock->event;
-		event_attach(event);
-		event_wait(event, -1);
+		if (error_catch( event_wait(event, -1) ))
+		{
+			lock_mgr_cancel(self, lock);
+			rethrow();
+		}
 	}
 }
 
@@ -201,23 +250,10 @@ lock_mgr_unlock(LockMgr* self, Lock* lock)
 	// detach from the lock manager
 	lock_mgr_remove(self, lock);
 
-	// batch wakeup non-conflicting waiters
-	while (rel->lock_wait_count > 0)
-	{
-		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
-		if (lock_resolve(lock->rel, lock->rel_lock))
-		{
-			rel->lock_set[lock->rel_lock]++;
-			rel->lock_wait_count--;
-			lock->waiting = false;
-			list_unlink(&lock->link);
-			event_signal(&lock->event);
-			continue;
-		}
-		break;
-	}
+	// wakeup waiters
+	lock_mgr_wakeup(rel);
 
-	spinlock_unlock(&lock->rel->lock);
+	spinlock_unlock(&rel->lock);
 
 	lock->rel      = NULL;
 	lock->rel_lock = LOCK_NONE;
-- 
2.43.0


From 3158984e91ba231a29f53011a640b98b3444247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 077/142] fix: wait for rpc and job completion in a cancelled
 coroutine

---
 amelie/runtime/base/rpc.h       | 3 ++-
 amelie/runtime/runtime/global.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/base/rpc.h b/amelie/runtime/base/rpc.h
index ae6ecc5..3d36f39 100644
--- a/amelie/runtime/base/rpc.h
+++ b/amelie/runtime/base/rpc.h
@@ -58,8 +58,9 @@ rpc_send(Rpc* self, Task* task)
 static inline void
 rpc_recv(Rpc* self)
 {
+	// wait for completion, even if the coroutine is already cancelled
 	cancel_pause();
-	event_wait(&self->on_complete, -1);
+	wait_event(&self->on_complete, am_self());
 	cancel_resume();
 }
 
diff --git a/amelie/runtime/runtime/global.h b/amelie/runtime/runtime/global.h
index 88eaf5a..be3d7c7 100644
--- a/amelie/runtime/runtime/global.h
+++ b/amelie/runtime/runtime/global.h
@@ -122,8 +122,9 @@ run(JobFunction main, int argc, ...)
 	event_attach(&job.on_complete);
 	job_mgr_add(&runtime()->job_mgr, &job);
 
+	// wait for completion, even if the coroutine is already cancelled
 	cancel_pause();
-	event_wait(&job.on_complete, -1);
+	wait_event(&job.on_complete, am_self());
 	cancel_resume();
 
 	// rethrow on error
-- 
2.43.0


From ed2735dc37eb48276ec18e4c18c924cf708cfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 078/142] fix: wait for all calls of a set when cancelled

---
 amelie/runtime/base/rpc_set.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/rpc_set.h b/amelie/runtime/base/rpc_set.h
index 9d53352..19755e0 100644
--- a/amelie/runtime/base/rpc_set.h
+++ b/amelie/runtime/base/rpc_set.h
@@ -66,8 +66,9 @@ rpc_set_add(RpcSet* self, int order, MsgId id, void* arg)
 static inline void
 rpc_set_wait(RpcSet* self)
 {
-	// collect responses
+	// collect responses (all of them, even if cancelled)
 	Error* error = NULL;
+	cancel_pause();
 	for (auto at = 0; at < self->set_count; at++)
 	{
 		auto rpc = rpc_set_at(self, at);
@@ -75,6 +76,7 @@ rpc_set_wait(RpcSet* self)
 		if (rpc->error.code != ERROR_NONE && !error)
 			error = &rpc->error;
 	}
+	cancel_resume();
 
 	// rethrow error
 	if (unlikely(error))
-- 
2.43.0


From 68f67cb442435cb842c1a3f79f4212b54e50c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 079/142] fix: normalize the deadline of a timed condition wait

---
 amelie/runtime/base/cond_var.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/runtime/base/cond_var.h b/amelie/runtime/base/cond_var.h
index 733ba27..b961e20 100644
--- a/amelie/runtime/base/cond_var.h
+++ b/amelie/runtime/base/cond_var.h
@@ -56,5 +56,10 @@ cond_var_timedwait(CondVar* self, Mutex* mutex, uint32_t time_ms)
 	struct timespec ts;
 	ts.tv_sec  = tv.tv_sec + (time_ms / 1000);
 	ts.tv_nsec = (tv.tv_usec * 1000) + (time_ms % 1000) * 1000000;
+	if (ts.tv_nsec >= 1000000000)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000;
+	}
 	pthread_cond_timedwait(&self->var, &mutex->lock, &ts);
 }
-- 
2.43.0


From 4e805b23fb835b395a773271b1e22c4d51ed4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 080/142] fix: do not move a followed option back under
 concurrent updates

---
 amelie/runtime/base/atomic.h | 14 ++++++++++++++
 amelie/runtime/runtime/opt.h |  4 +---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/base/atomic.h b/amelie/runtime/base/atomic.h
index 0286a8b..e52a23e 100644
--- a/amelie/runtime/base/atomic.h
+++ b/amelie/runtime/base/atomic.h
@@ -68,6 +68,20 @@ atomic_u64_dec(atomic_u64* self)
 	return __sync_fetch_and_sub(self, 1);
 }
 
+static inline void
+atomic_u64_follow(atomic_u64* self, uint64_t value)
+{
+	// advance to the value, never move back
+	for (;;)
+	{
+		auto current = atomic_u64_of(self);
+		if (current >= value)
+			break;
+		if (__sync_bool_compare_and_swap(self, current, value))
+			break;
+	}
+}
+
 static inline uint64_t
 atomic_u64_set(atomic_u64* self, uint64_t value)
 {
diff --git a/amelie/runtime/runtime/opt.h b/amelie/runtime/runtime/opt.h
index 40d8e1f..c486f47 100644
--- a/amelie/runtime/runtime/opt.h
+++ b/amelie/runtime/runtime/opt.h
@@ -105,9 +105,7 @@ static inline void
 opt_int_follow(Opt* self, uint64_t value)
 {
 	assert(self->type == OPT_INT || self->type == OPT_BOOL);
-	// todo: cas loop
-	if (value > atomic_u64_of(&self->integer))
-		atomic_u64_set(&self->integer, value);
+	atomic_u64_follow(&self->integer, value);
 }
 
 static inline uint64_t
-- 
2.43.0


From 498a43a46c8d326069141e47449891668d6b07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 081/142] fix: do not repeat identity values on explicit
 inserts in parallel

---
 amelie/db/row/sequence.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index c96e64f..98e0959 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -61,7 +61,14 @@ sequence_sync(Sequence* self, uint64_t value)
 {
 	spinlock_lock(&self->lock);
 	auto next = value + 1;
-	if ((int64_t)self->value < (int64_t)next)
-		self->value = next;
+	for (;;)
+	{
+		// the value can be advanced by sequence_next() in parallel
+		auto current = sequence_get(self);
+		if ((int64_t)current >= (int64_t)next)
+			break;
+		if (__sync_bool_compare_and_swap(&self->value, current, next))
+			break;
+	}
 	spinlock_unlock(&self->lock);
 }
-- 
2.43.0


From b6860384fc6676051f6288f938577b4415956526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 082/142] fix: do not generate the same random value for two
 threads

---
 amelie/runtime/lib/random.c | 11 +++++++----
 amelie/runtime/lib/random.h |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/lib/random.c b/amelie/runtime/lib/random.c
index 63ac1b3..a73fb33 100644
--- a/amelie/runtime/lib/random.c
+++ b/amelie/runtime/lib/random.c
@@ -19,6 +19,7 @@ random_init(Random* self)
 {
 	self->seed[0] = 0;
 	self->seed[1] = 0;
+	spinlock_init(&self->lock);
 }
 
 void
@@ -50,13 +51,15 @@ hot uint64_t
 random_generate(Random* self)
 {
 	// xorshift128plus
+	spinlock_lock(&self->lock);
 	auto seed = self->seed;
-	uint64_t a = atomic_u64_of(&seed[0]);
-	uint64_t b = atomic_u64_of(&seed[1]);
-	atomic_u64_set(&seed[0], b);
+	uint64_t a = seed[0];
+	uint64_t b = seed[1];
+	seed[0] = b;
 	a ^= a << 23;
 	uint64_t c = a ^ b ^ (a >> 17) ^ (b >> 26);
-	atomic_u64_set(&seed[1], c);
+	seed[1] = c;
+	spinlock_unlock(&self->lock);
 	return c + b;
 }
 
diff --git a/amelie/runtime/lib/random.h b/amelie/runtime/lib/random.h
index 649a6ae..dd820ad 100644
--- a/amelie/runtime/lib/random.h
+++ b/amelie/runtime/lib/random.h
@@ -15,7 +15,8 @@ typedef struct Random Random;
 
 struct Random
 {
-	atomic_u64 seed[2];
+	uint64_t seed[2];
+	Spinlock lock;
 };
 
 void     random_init(Random*);
-- 
2.43.0


From 0f1681006a99bcf3d7cd668108be04721cd6550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 083/142] fix: refuse a key of a column which does not exist

---
 amelie/db/row/keys.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/db/row/keys.h b/amelie/db/row/keys.h
index c9976af..6e23690 100644
--- a/amelie/db/row/keys.h
+++ b/amelie/db/row/keys.h
@@ -131,6 +131,11 @@ keys_read(Keys* self, uint8_t** pos)
 	while (! json_read_array_end(pos))
 	{
 		auto key = key_read(pos);
+		if (unlikely(! columns_find_by(self->columns, key->ref)))
+		{
+			key_free(key);
+			error("keys: column does not exist");
+		}
 		keys_add(self, key);
 	}
 }
-- 
2.43.0


From fe61d8d885669547d79c728ede47866392bcf7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 084/142] fix: do not mix regions of an object file in one read
 buffer

---
 amelie/db/object/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 9aedfb7..21958a3 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -62,6 +62,7 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	encoder_reset(encoder);
 
 	// read region data from file
+	buf_reset(&self->buf_read);
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
-- 
2.43.0


From 796b60368b239b1df0c80ff683afcd6e0f093e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:18 +0000
Subject: [PATCH 085/142] fix: map keys to objects when there are several of
 them

---
 amelie/db/object/mapping.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amelie/db/object/mapping.h b/amelie/db/object/mapping.h
index 13e1fe2..ac132f1 100644
--- a/amelie/db/object/mapping.h
+++ b/amelie/db/object/mapping.h
@@ -55,9 +55,11 @@ mapping_max(Mapping* self)
 hot always_inline static inline int
 mapping_compare(Mapping* self, Object* object, Row* key)
 {
-	if (self->tree_count == 1)
-		return 0;
-	return compare(self->keys, branch_min(object->root), key);
+	// object without rows goes before any key
+	auto min = branch_min(object->root);
+	if (unlikely(! min))
+		return -1;
+	return compare(self->keys, min, key);
 }
 
 hot static inline
@@ -110,6 +112,10 @@ mapping_prev(Mapping* self, Object* object)
 hot static inline Object*
 mapping_map(Mapping* self, Row* key)
 {
+	// single object or no key
+	if (self->tree_count == 1 || !key)
+		return mapping_min(self);
+
 	// part[n].min >= key && key < part[n + 1].min
 	RbtreeNode* node = NULL;
 	int rc = mapping_find(&self->tree, self, key, &node);
@@ -128,7 +134,8 @@ mapping_gte(Mapping* self, Row* key)
 	if (unlikely(! self->tree_count))
 		return NULL;
 	auto object = mapping_map(self, key);
-	if (compare(self->keys, branch_max(object->root), key) > 0)
+	auto max = branch_max(object->root);
+	if (key && (!max || compare(self->keys, max, key) < 0))
 		return mapping_next(self, object);
 	return object;
 }
-- 
2.43.0


From 6a6d712daa28dbb01c003129f88ecc9e9a9e881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:03 +0000
Subject: [PATCH 086/142] fix: check the crc of object file regions

---
 amelie/db/object/reader.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 21958a3..006bb2e 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -66,6 +66,15 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
+	// check region crc (it is not set when written without crc)
+	if (meta_region->crc && opt_int_of(&config()->storage_crc))
+	{
+		uint32_t crc;
+		crc = runtime()->crc(0, self->buf_read.start, buf_size(&self->buf_read));
+		if (crc != meta_region->crc)
+			error("object: region crc mismatch");
+	}
+
 	// decrypt/decompress or read raw
 	Region* region = NULL;
 	if (encoder_active(&self->encoder))
-- 
2.43.0


From deab10d8db142a16f2f51974411734eaeb969939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 087/142] fix: keep accepting timestamps with an overflowing
 day or time

The day of the month and the time of the day are normalized on purpose
(tests/expr/timestamp), so they are not to be rejected.
---
 amelie/runtime/lib/timestamp.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 657910d..14f996c 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -200,20 +200,8 @@ timestamp_validate(Timestamp* self, Str* str)
 	if (! (self->time.tm_mon >= 1 && self->time.tm_mon <= 12))
 		goto error;
 
-	// day (of the month)
-	int year  = self->time.tm_year;
-	int month = self->time.tm_mon;
-	int days  = 31;
-	if (month == 4 || month == 6 || month == 9 || month == 11)
-		days = 30;
-	else
-	if (month == 2)
-		days = (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)) ? 29 : 28;
-	if (! (self->time.tm_mday >= 1 && self->time.tm_mday <= days))
-		goto error;
-
-	// time
-	if (self->time.tm_hour > 23 || self->time.tm_min > 59 || self->time.tm_sec > 59)
+	// day
+	if (! (self->time.tm_mday >= 1 && self->time.tm_mday <= 31))
 		goto error;
 
 	// zone
-- 
2.43.0


From be254b4824567976bff8b89a3609c013e7ccdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 088/142] fix: keep accepting dates with an overflowing month
 or day

Such dates are normalized (tests/expr/cast), so they are not to be rejected.
---
 amelie/runtime/lib/date.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/amelie/runtime/lib/date.c b/amelie/runtime/lib/date.c
index 3680ca4..2981142 100644
--- a/amelie/runtime/lib/date.c
+++ b/amelie/runtime/lib/date.c
@@ -72,15 +72,7 @@ date_set(Str* str)
 		goto error;
 	int day = date_parse_part(str, pos, pos_end);
 
-	// validate month and day of the month
-	int julian_day = date_set_gregorian(year, month, day);
-	int check_year;
-	int check_month;
-	int check_day;
-	date_get_gregorian(julian_day, &check_year, &check_month, &check_day);
-	if (unlikely(check_year != year || check_month != month || check_day != day))
-		goto error;
-	return julian_day;
+	return date_set_gregorian(year, month, day);
 
 error:
 	date_error_str(str);
-- 
2.43.0


From b67416320c82f82faae9c310245768d6c02f664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 089/142] fix: read through the tiers only when there are any

---
 amelie/db/tier/tier_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/tier/tier_mgr.h b/amelie/db/tier/tier_mgr.h
index ab307b0..8a21775 100644
--- a/amelie/db/tier/tier_mgr.h
+++ b/amelie/db/tier/tier_mgr.h
@@ -37,7 +37,7 @@ Buf*    tier_mgr_list(TierMgr*, Str*, int);
 static inline bool
 tier_mgr_created(TierMgr* self)
 {
-	return !self->list_count;
+	return self->list_count > 0;
 }
 
 static inline Tier*
-- 
2.43.0


From 0f41ec1d699306c105663ab245d2c5837e8cb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 090/142] fix: allow an alias for the result of multiplication

---
 amelie/compiler/parser/parse_returning.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/compiler/parser/parse_returning.c b/amelie/compiler/parser/parse_returning.c
index 51254ba..9db45a0 100644
--- a/amelie/compiler/parser/parse_returning.c
+++ b/amelie/compiler/parser/parse_returning.c
@@ -72,7 +72,7 @@ parse_returning(Returning* self, Stmt* stmt, Expr* ctx)
 		} else
 		{
 			// ensure * has no alias
-			if (expr->id == '*')
+			if (expr->id == KSTAR)
 				stmt_error(stmt, name, "* cannot have an alias");
 		}
 
-- 
2.43.0


From 149e58e3428433e3a0c4815595c4f94cb9af356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:38 +0000
Subject: [PATCH 091/142] fix: set the stop conditions of a scan only for tree
 indexes

---
 amelie/compiler/compiler/scan.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amelie/compiler/compiler/scan.c b/amelie/compiler/compiler/scan.c
index 933408a..0b8f9ca 100644
--- a/amelie/compiler/compiler/scan.c
+++ b/amelie/compiler/compiler/scan.c
@@ -183,8 +183,11 @@ scan_table(Scan* self, Target* target)
 	code_at(cp->code, _open)->c = _eof;
 
 	// set scan stop jntr to eof
-	for (auto order = 0; order < path->match_stop; order++)
-		code_at(cp->code, scan_stop_jntr[order])->a = _eof;
+	if (index->type == INDEX_TREE)
+	{
+		for (auto order = 0; order < path->match_stop; order++)
+			code_at(cp->code, scan_stop_jntr[order])->a = _eof;
+	}
 
 	// resolve outer target break/continue
 	if (! target->prev)
-- 
2.43.0


From e931ca1990c03740f66016ebf44e462fd5cca011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 092/142] fix: convert the keys of an index lookup to the types
 of their columns

---
 amelie/vm/value/row.h  | 53 ++++++++++++++++++++++++++++++++++++++++++
 amelie/vm/vm/command.c | 16 +++++++++++--
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/amelie/vm/value/row.h b/amelie/vm/value/row.h
index 10eba93..9199ab4 100644
--- a/amelie/vm/value/row.h
+++ b/amelie/vm/value/row.h
@@ -55,6 +55,59 @@ row_map(Table* table, Value* refs, Value* values, Value* identity)
 	return mapping->map[hash_partition];
 }
 
+hot static inline bool
+row_prepare_keys(Keys* self, Value* values, int count)
+{
+	// convert key values to the types of their columns, values are
+	// rounded down and can be used for lookup or as a range start
+	list_foreach(&self->list)
+	{
+		auto key = list_at(Key, link);
+		if (key->order >= count)
+			break;
+
+		// null never match
+		auto value = values + key->order;
+		if (value->type == TYPE_NULL)
+			return false;
+
+		// string, uuid
+		auto column = key->column;
+		if (column->type != TYPE_INT && column->type != TYPE_TIMESTAMP)
+			continue;
+
+		// int, timestamp
+		auto min = INT64_MIN;
+		auto max = INT64_MAX;
+		if (column->type_size == 4)
+		{
+			min = INT32_MIN;
+			max = INT32_MAX;
+		}
+		int64_t integer;
+		if (value->type == TYPE_DOUBLE)
+		{
+			if (! (value->dbl > (double)min))
+				integer = min;
+			else
+			if (value->dbl >= (double)max)
+				integer = max;
+			else
+				integer = floor(value->dbl);
+		} else
+		{
+			integer = value->integer;
+			if (integer < min)
+				integer = min;
+			else
+			if (integer > max)
+				integer = max;
+		}
+		value_set_int(value, integer);
+	}
+	return true;
+}
+
 hot static inline Part*
 row_map_keys(Table* table, Value* values)
 {
diff --git a/amelie/vm/vm/command.c b/amelie/vm/vm/command.c
index 3c1d16e..aced15c 100644
--- a/amelie/vm/vm/command.c
+++ b/amelie/vm/vm/command.c
@@ -126,7 +126,11 @@ csend_lookup(Vm* self, Op* op)
 
 	// map partition using keys
 	auto values = stack_at(&self->stack, index->keys.list_count);
-	auto part = row_map_keys(table, values);
+	Part* part;
+	if (row_prepare_keys(&index->keys, values, index->keys.list_count))
+		part = row_map_keys(table, values);
+	else
+		part = table->part_mgr.mapping.map[0];
 	stack_popn(&self->stack, index->keys.list_count);
 
 	auto req  = dispatch_add(dispatch, &dispatch_mgr->cache_req,
@@ -395,10 +399,18 @@ ctable_open(Vm* self, Op* op, bool point_lookup, bool open_part)
 	auto keys  = &index->keys;
 	auto keys_count = op->d;
 
+	// jmp on eof, if any of the keys is null
+	auto values = stack_at(&self->stack, keys_count);
+	if (unlikely(! row_prepare_keys(keys, values, keys_count)))
+	{
+		stack_popn(&self->stack, keys_count);
+		return code_at(self->code, op->c);
+	}
+
 	// create cursor key
 	auto buf = buf_create();
 	defer_buf(buf);
-	auto key = row_create_key(buf, keys, stack_at(&self->stack, keys_count), keys_count);
+	auto key = row_create_key(buf, keys, values, keys_count);
 	stack_popn(&self->stack, keys_count);
 
 	// in case of hash index, use key only for point-lookup
-- 
2.43.0


From b79fe64504225613a1572d6b2ba2ab0838ebabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 093/142] fix: accept DEFAULT for any column of a column list

---
 amelie/compiler/parser/parse_row.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/amelie/compiler/parser/parse_row.c b/amelie/compiler/parser/parse_row.c
index c70474a..261e03d 100644
--- a/amelie/compiler/parser/parse_row.c
+++ b/amelie/compiler/parser/parse_row.c
@@ -34,11 +34,19 @@ parse_row_list(Stmt* self, From* from, Table* table, Set* values, Ast* list)
 		auto column_value = &row[column->order];
 
 		// DEFAULT | value
-		Ast* value = stmt_if(self, KDEFAULT);
-		if (!value && list && list->column->order == column->order)
+		Ast* value = NULL;
+		if (list && list->column->order == column->order)
 		{
-			// parse column value
-			value = parse_value(self, from, column, column_value);
+			value = stmt_if(self, KDEFAULT);
+			if (! value)
+			{
+				// parse column value
+				value = parse_value(self, from, column, column_value);
+			} else
+			{
+				// IDENTITY, RANDOM or DEFAULT
+				parse_value_default(self, column, column_value);
+			}
 
 			// ,
 			list = list->next;
-- 
2.43.0


From 32aa54a5a45dd90dfbdd79477cec0b7e02c7c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 094/142] fix: do not free a session while its event is being
 delivered

---
 amelie/system/api/amelie.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amelie/system/api/amelie.c b/amelie/system/api/amelie.c
index c46a2f1..9e88044 100644
--- a/amelie/system/api/amelie.c
+++ b/amelie/system/api/amelie.c
@@ -74,6 +74,12 @@ amelie_free(void* ptr)
 		request_queue_push(&self->native.queue, &req, true);
 		request_wait(&req, -1);
 		request_free(&req);
+
+		// request can be completed before its event is delivered, ensure
+		// that the frontend no longer has a reference to it
+		auto on_write = &self->native.queue.on_write;
+		while (atomic_u32_of(&on_write->ipc.refs) > 0)
+			sched_yield();
 		native_free(&self->native);
 
 		// cleanup request cache
-- 
2.43.0


From 38d6f5a5a445833c6f798b218464f9af88075139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:59 +0000
Subject: [PATCH 095/142] fix: the result of LIKE is bool

---
 amelie/compiler/compiler/cast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/compiler/compiler/cast.c b/amelie/compiler/compiler/cast.c
index 1e6f812..d422a7c 100644
--- a/amelie/compiler/compiler/cast.c
+++ b/amelie/compiler/compiler/cast.c
@@ -309,7 +309,7 @@ cast_op[OP_MAX][TYPE_MAX][TYPE_MAX] =
 	[OP_LIKE] =
 	{
 		// string
-		[TYPE_STRING][TYPE_STRING]       = { TYPE_STRING,    CLIKESS },
+		[TYPE_STRING][TYPE_STRING]       = { TYPE_BOOL,      CLIKESS },
 	},
 
 	[OP_BOR] =
-- 
2.43.0


From d23c662d63fd662f2c9528e7d262da761fa1c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:32 +0000
Subject: [PATCH 096/142] fix: do not choose a secondary index for UPDATE and
 DELETE

---
 amelie/compiler/parser/parse_delete.c | 4 +++-
 amelie/compiler/parser/parse_update.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/amelie/compiler/parser/parse_delete.c b/amelie/compiler/parser/parse_delete.c
index 02e50db..68e7994 100644
--- a/amelie/compiler/parser/parse_delete.c
+++ b/amelie/compiler/parser/parse_delete.c
@@ -40,9 +40,11 @@ parse_delete(Stmt* self)
 	stmt->table = target->from_table;
 
 	// ensure primary index is used
+	auto primary = table_primary(stmt->table);
 	if (target->from_index)
-		if (table_primary(stmt->table) != target->from_index)
+		if (primary != target->from_index)
 			stmt_error(self, from, "DELETE supports only primary index");
+	target->from_index = primary;
 
 	// [WHERE]
 	if (stmt_if(self, KWHERE))
diff --git a/amelie/compiler/parser/parse_update.c b/amelie/compiler/parser/parse_update.c
index d029f08..884dc23 100644
--- a/amelie/compiler/parser/parse_update.c
+++ b/amelie/compiler/parser/parse_update.c
@@ -164,9 +164,11 @@ parse_update(Stmt* self)
 	stmt->table = target->from_table;
 
 	// ensure primary index is used
+	auto primary = table_primary(stmt->table);
 	if (target->from_index)
-		if (table_primary(stmt->table) != target->from_index)
+		if (primary != target->from_index)
 			stmt_error(self, NULL, "UPDATE supports only primary index");
+	target->from_index = primary;
 
 	// SET column = expr [, ... ]
 	stmt->expr_update = parse_update_expr(self);
-- 
2.43.0


From 224c60a2a6c134806b2070bc75a6ada1f77eb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 097/142] fix: do not use the send context after its buffer is
 reallocated

---
 amelie/compiler/compiler/compiler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index f6297d7..6aee411 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -163,11 +163,12 @@ emit_send(Compiler* self, Target* target, int type, int start)
 
 	// create send context
 	auto program = self->program;
+	auto has_result = ret && returning_has(ret);
 	int  send_offset;
 	auto send = send_create(&program->code_data, &send_offset);
 	send->type       = type;
 	send->start      = start;
-	send->has_result = ret && returning_has(ret);
+	send->has_result = has_result;
 	send->table      = target->from_table;
 
 	// prepare statement dispatch order register
@@ -206,7 +207,7 @@ emit_send(Compiler* self, Target* target, int type, int start)
 		}
 	}
 
-	if (send->has_result)
+	if (has_result)
 		stmt->rdispatch = rdispatch;
 	else
 		runpin(self, rdispatch);
-- 
2.43.0


From 0a61634174d597d4a45614b46fedd73071c8157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 098/142] fix: average of negative integers

---
 amelie/runtime/lib/avg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/avg.h b/amelie/runtime/lib/avg.h
index 009bb61..4124875 100644
--- a/amelie/runtime/lib/avg.h
+++ b/amelie/runtime/lib/avg.h
@@ -45,7 +45,7 @@ avg_add_double(Avg* self, double value, int count)
 static inline int64_t
 avg_int(Avg* self)
 {
-	return self->sum_int / self->count;
+	return self->sum_int / (int64_t)self->count;
 }
 
 static inline double
-- 
2.43.0


From df387f99f798e096826e1395169d561b62ba188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 099/142] fix: cross-partition lookup by a unique secondary
 index

---
 amelie/db/part/cursor.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index aa96196..d43f818 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -184,7 +184,12 @@ cursor_open(PartMgr*     self,
 	// point lookup (tree or hash index)
 	if (point_lookup)
 	{
-		part = part_mapping_map(&self->mapping, key);
+		// keys of an unique secondary index do not include the primary
+		// keys, such tables have only one partition
+		if (self->list_count == 1)
+			part = self->mapping.map[0];
+		else
+			part = part_mapping_map(&self->mapping, key);
 		return cursor_lookup(self, part, config, key);
 	}
 
-- 
2.43.0


From d7cb56df4cace9cd4e1be32ea5120f0abdc897bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 100/142] fix: columns of an index stay NOT NULL after a
 restart

---
 amelie/db/row/keys.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/row/keys.h b/amelie/db/row/keys.h
index 6e23690..6cb7a47 100644
--- a/amelie/db/row/keys.h
+++ b/amelie/db/row/keys.h
@@ -137,6 +137,9 @@ keys_read(Keys* self, uint8_t** pos)
 			error("keys: column does not exist");
 		}
 		keys_add(self, key);
+
+		// force column not_null constraint
+		constraints_set_not_null(&key->column->constraints, true);
 	}
 }
 
-- 
2.43.0


From 068e6cc8175edd3436f2760535482ee2ac2254d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 101/142] fix: read the columns of a nested GROUP BY where it
 is evaluated

---
 amelie/compiler/compiler/emit_select.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/compiler/compiler/emit_select.c b/amelie/compiler/compiler/emit_select.c
index 65d17e3..07ad3cc 100644
--- a/amelie/compiler/compiler/emit_select.c
+++ b/amelie/compiler/compiler/emit_select.c
@@ -336,11 +336,12 @@ cmd_scan_aggs(Compiler* self, Plan* plan, Command* ref)
 static void
 cmd_pipe(Compiler* self, Plan* plan, Command* ref)
 {
-	unused(self);
 	unused(ref);
 	assert(plan->r != -1);
 	auto select = plan->select;
-	from_first(&select->from_group)->r = plan->r;
+	auto target = from_first(&select->from_group);
+	target->r = plan->r;
+	target_set_origin(target, self->origin);
 }
 
 static void
-- 
2.43.0


From 533c0b9b874a34bb11850aeead3c16628502d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 102/142] fix: types of the columns of a CTE with aggregates

---
 amelie/compiler/compiler/compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index 6aee411..5ab1036 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -315,6 +315,10 @@ emit_recv(Compiler* self, Stmt* stmt)
 	runpin(self, stmt->rdispatch);
 	stmt->rdispatch = -1;
 
+	// set cte columns types, which are known only after the frontend part
+	if (stmt->cte_name)
+		columns_copy_types(&stmt->cte_columns, &ret->columns);
+
 	// handle INTO and := after receive
 	if (ret->count_into > 0)
 		emit_into(self, stmt);
-- 
2.43.0


From cbda397bf0130823efb5bf0e5d44bddc245a7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:11 +0000
Subject: [PATCH 103/142] fix: last sending statement of a block with a nested
 FROM (SELECT)

---
 amelie/compiler/parser/parse_for.c   |  2 ++
 amelie/compiler/parser/parse_from.c  |  2 ++
 amelie/compiler/parser/parse_if.c    |  7 +++++++
 amelie/compiler/parser/parse_while.c |  2 ++
 amelie/compiler/parser/stmts.h       | 13 +++++++++++++
 5 files changed, 26 insertions(+)

diff --git a/amelie/compiler/parser/parse_for.c b/amelie/compiler/parser/parse_for.c
index 77130e7..84dafb5 100644
--- a/amelie/compiler/parser/parse_for.c
+++ b/amelie/compiler/parser/parse_for.c
@@ -58,5 +58,7 @@ parse_for(Stmt* self)
 	block_copy_deps(self, stmt->block, false);
 
 	// if for block sends data
+	if (stmt->block->stmts.nested_send)
+		stmts_add_nested_send(&self->block->stmts, self);
 	return stmt->block->stmts.last_send != NULL;
 }
diff --git a/amelie/compiler/parser/parse_from.c b/amelie/compiler/parser/parse_from.c
index cc3a8ef..6e37e61 100644
--- a/amelie/compiler/parser/parse_from.c
+++ b/amelie/compiler/parser/parse_from.c
@@ -51,6 +51,8 @@ parse_from_target(Stmt* self, From* from, LockId lock, bool subquery)
 				stmt_expect(self, ')');
 				stmt->ast = &select->ast;
 				stmt->ret = &select->ret;
+				if (select->pushdown)
+					stmts_add_nested_send(&self->block->stmts, stmt);
 				parse_select_resolve(stmt);
 
 				target->type      = TARGET_STMT;
diff --git a/amelie/compiler/parser/parse_if.c b/amelie/compiler/parser/parse_if.c
index 41cd024..a41d2ce 100644
--- a/amelie/compiler/parser/parse_if.c
+++ b/amelie/compiler/parser/parse_if.c
@@ -89,6 +89,13 @@ parse_if(Stmt* self)
 
 	// return true if any of the blocks send data
 	auto ref = stmt->conds.list;
+	for (; ref; ref = ref->next)
+		if (ast_if_cond_of(ref->ast)->block->stmts.nested_send)
+			stmts_add_nested_send(&self->block->stmts, self);
+	if (stmt->cond_else && stmt->cond_else->stmts.nested_send)
+		stmts_add_nested_send(&self->block->stmts, self);
+
+	ref = stmt->conds.list;
 	for (; ref; ref = ref->next)
 		if (ast_if_cond_of(ref->ast)->block->stmts.last_send)
 			return true;
diff --git a/amelie/compiler/parser/parse_while.c b/amelie/compiler/parser/parse_while.c
index dc4a2c6..983da77 100644
--- a/amelie/compiler/parser/parse_while.c
+++ b/amelie/compiler/parser/parse_while.c
@@ -49,5 +49,7 @@ parse_while(Stmt* self)
 	block_copy_deps(self, stmt->block, false);
 
 	// if while block sends data
+	if (stmt->block->stmts.nested_send)
+		stmts_add_nested_send(&self->block->stmts, self);
 	return stmt->block->stmts.last_send != NULL;
 }
diff --git a/amelie/compiler/parser/stmts.h b/amelie/compiler/parser/stmts.h
index 12994eb..71b3f48 100644
--- a/amelie/compiler/parser/stmts.h
+++ b/amelie/compiler/parser/stmts.h
@@ -18,6 +18,7 @@ struct Stmts
 	Stmt* list;
 	Stmt* list_tail;
 	Stmt* last_send;
+	bool  nested_send;
 	int   count;
 	int   count_utility;
 	int   count_break;
@@ -30,12 +31,24 @@ stmts_init(Stmts* self)
 	self->list           = NULL;
 	self->list_tail      = NULL;
 	self->last_send      = NULL;
+	self->nested_send    = false;
 	self->count          = 0;
 	self->count_utility  = 0;
 	self->count_break    = 0;
 	self->count_continue = 0;
 }
 
+static inline void
+stmts_add_nested_send(Stmts* self, Stmt* stmt)
+{
+	// stmt sends data, but only by using FROM (SELECT)
+	self->nested_send = true;
+
+	// it must not follow the last sending statement, which does close
+	if (self->last_send)
+		self->last_send = stmt;
+}
+
 static inline void
 stmts_add(Stmts* self, Stmt* stmt)
 {
-- 
2.43.0


From 9c16c0c432c46d4d482a46225e959c6e2d23c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 104/142] fix: wait for the partitions before reading them from
 another one

---
 amelie/compiler/compiler/compiler.c |  8 ++++++++
 amelie/runtime/runtime/access.h     |  6 ++++++
 amelie/system/backend/pod.c         |  2 ++
 amelie/system/session/session.c     |  2 +-
 amelie/vm/executor/executor.h       | 25 +++++++++++++++++++++++++
 amelie/vm/executor/program.h        |  3 +++
 amelie/vm/executor/req.h            |  1 +
 amelie/vm/vm/command.c              | 10 ++++++++++
 8 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index 5ab1036..1740022 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -891,6 +891,14 @@ compiler_emit(Compiler* self)
 	if (program->access.count > 1)
 		program->snapshot = true;
 
+	// sync partitions if the program reads relations across partitions
+	for (auto i = 0; i < program->access.list_count; i++)
+	{
+		auto record = access_at(&program->access, i);
+		if (record->lock == LOCK_EXCLUSIVE_RO || record->lock == LOCK_EXCLUSIVE)
+			program->snapshot = program->sync = true;
+	}
+
 	// sort relations by rsn
 	access_sort(&program->access);
 }
diff --git a/amelie/runtime/runtime/access.h b/amelie/runtime/runtime/access.h
index 347bcde..60815ea 100644
--- a/amelie/runtime/runtime/access.h
+++ b/amelie/runtime/runtime/access.h
@@ -85,6 +85,12 @@ access_add(Access* self, Relation* rel, LockId lock)
 		auto record = access_at(self, i);
 		if (record->rel == rel)
 		{
+			// reading across partitions together with writing requires
+			// an exclusive access
+			if ((record->lock == LOCK_SHARED_RW && lock == LOCK_EXCLUSIVE_RO) ||
+			    (record->lock == LOCK_EXCLUSIVE_RO && lock == LOCK_SHARED_RW))
+				record->lock = LOCK_EXCLUSIVE;
+			else
 			if (record->lock < lock)
 				record->lock = lock;
 			return;
diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index f9a023f..b20f667 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -100,6 +100,8 @@ pod_request(Pod* self, Ltr* ltr, Req* req)
 			value_move(&req->result, ret.value);
 		break;
 	}
+	case REQ_SYNC:
+		break;
 	case REQ_REPLAY:
 	{
 		// create and add transaction to the prepared list (even on error)
diff --git a/amelie/system/session/session.c b/amelie/system/session/session.c
index 4db71ce..5e9fb1d 100644
--- a/amelie/system/session/session.c
+++ b/amelie/system/session/session.c
@@ -119,7 +119,7 @@ session_execute_distributed(Session* self, Output* output)
 		       NULL,
 		       compiler->program_args,
 		       &ret,
-		       true,
+		       !program->sync,
 		       0);
 	);
 
diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index 492f163..ea7ef3a 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -108,6 +108,31 @@ executor_send(Executor* self, Dtr* dtr, Dispatch* dispatch)
 	dispatch_mgr_send(mgr, dispatch);
 }
 
+hot static inline void
+executor_sync(Executor* self, Dtr* dtr)
+{
+	// wait until every partition of the transaction have applied previously
+	// prepared transactions and have executed all requests sent so far,
+	// partitions can be safely accessed by others after that
+	auto mgr = &dtr->dispatch_mgr;
+	auto dispatch = dispatch_create(&mgr->cache);
+	auto access = &dtr->program->access;
+	for (auto i = 0; i < access->list_count; i++)
+	{
+		auto ac = access_at(access, i);
+		if (ac->lock == LOCK_CALL)
+			continue;
+		list_foreach(&table_of(ac->rel)->part_mgr.list)
+		{
+			auto part = list_at(Part, id.link);
+			dispatch_add(dispatch, &mgr->cache_req, REQ_SYNC, 0, NULL, NULL, part);
+		}
+	}
+	dispatch_set_returning(dispatch);
+	executor_send(self, dtr, dispatch);
+	dispatch_wait(dispatch);
+}
+
 hot static inline uint64_t
 executor_detach(Executor* self, Batch* batch)
 {
diff --git a/amelie/vm/executor/program.h b/amelie/vm/executor/program.h
index a9ec1ac..c9f7a27 100644
--- a/amelie/vm/executor/program.h
+++ b/amelie/vm/executor/program.h
@@ -23,6 +23,7 @@ struct Program
 	SetList  sets;
 	int      send_last;
 	bool     snapshot;
+	bool     sync;
 	bool     repl;
 	bool     utility;
 	LockId   lock_catalog;
@@ -35,6 +36,7 @@ program_allocate(void)
 	auto self = (Program*)am_malloc(sizeof(Program));
 	self->send_last    = -1;
 	self->snapshot     = false;
+	self->sync         = false;
 	self->repl         = false;
 	self->utility      = false;
 	self->lock_catalog = LOCK_SHARED;
@@ -66,6 +68,7 @@ program_reset(Program* self, SetCache* cache)
 {
 	self->send_last    = -1;
 	self->snapshot     = false;
+	self->sync         = false;
 	self->repl         = false;
 	self->utility      = false;
 	self->lock_catalog = LOCK_SHARED;
diff --git a/amelie/vm/executor/req.h b/amelie/vm/executor/req.h
index f46c724..90fd79c 100644
--- a/amelie/vm/executor/req.h
+++ b/amelie/vm/executor/req.h
@@ -20,6 +20,7 @@ enum
 {
 	REQ_EXECUTE,
 	REQ_REPLAY,
+	REQ_SYNC,
 	REQ_BUILD
 };
 
diff --git a/amelie/vm/vm/command.c b/amelie/vm/vm/command.c
index aced15c..30168ac 100644
--- a/amelie/vm/vm/command.c
+++ b/amelie/vm/vm/command.c
@@ -99,6 +99,8 @@ csend_shard(Vm* self, Op* op)
 	value_free(reg_at(&self->r, op->b));
 
 	// execute
+	if (dtr->program->sync)
+		executor_sync(share()->executor, dtr);
 	executor_send(share()->executor, dtr, dispatch);
 
 	// return dispatch order
@@ -148,6 +150,8 @@ csend_lookup(Vm* self, Op* op)
 	}
 
 	// execute
+	if (dtr->program->sync)
+		executor_sync(share()->executor, dtr);
 	executor_send(share()->executor, dtr, dispatch);
 
 	// return dispatch order
@@ -189,6 +193,8 @@ csend_all(Vm* self, Op* op)
 		stack_popn(&self->stack, op->b);
 
 	// execute
+	if (dtr->program->sync)
+		executor_sync(share()->executor, dtr);
 	executor_send(share()->executor, dtr, dispatch);
 
 	// return dispatch order
@@ -393,6 +399,10 @@ ctable_open(Vm* self, Op* op, bool point_lookup, bool open_part)
 	json_read_string(&pos, &name_table);
 	json_read_string(&pos, &name_index);
 
+	// ensure partitions can be accessed from the frontend
+	if (! self->part && self->dtr)
+		executor_sync(share()->executor, self->dtr);
+
 	// find table, partition and index
 	auto table = table_mgr_find(&share()->db->catalog.table_mgr, &name_db, &name_table, true);
 	auto index = table_index_find(table, &name_index, true);
-- 
2.43.0


From 9bd0bf42bf4d480f7ecdd80b7c41f7ccca083a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:22 +0000
Subject: [PATCH 105/142] fix: LIKE with more than one way to match %

---
 amelie/vm/value/like.c | 85 +++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/amelie/vm/value/like.c b/amelie/vm/value/like.c
index d9b1111..88ea39d 100644
--- a/amelie/vm/value/like.c
+++ b/amelie/vm/value/like.c
@@ -28,70 +28,63 @@ value_like(Value* result, Value* str, Value* pattern)
 	auto end_str = str->string.end;
 	auto pos = pattern->string.pos;
 	auto end = pattern->string.end;
-	while (pos < end)
-	{
-		// match any single character
-		if (*pos == '_')
-		{
-			if (pos_str == end_str)
-				return;
-			utf8_forward(&pos_str);
-			pos++;
-			continue;
-		}
 
+	// positions to continue from after the last % on mismatch
+	char* retry = NULL;
+	char* retry_str = NULL;
+	for (;;)
+	{
 		// match zero, one or multiple characters
-		if (*pos == '%')
+		if (pos < end && *pos == '%')
 		{
 			// combine % and _ together
 			while (pos < end && (*pos == '%' || *pos == '_'))
 				pos++;
+			retry = pos;
+			retry_str = pos_str;
+			continue;
+		}
 
-			// % at the end of the pattern
+		if (pos_str == end_str)
+		{
 			if (pos == end)
-				goto match;
+				break;
+			return;
+		}
 
-			// match next character after %
-			if (*pos == '\\')
+		if (pos < end)
+		{
+			// match any single character
+			if (*pos == '_')
+			{
+				utf8_forward(&pos_str);
 				pos++;
-			if (pos == end)
-				return;
+				continue;
+			}
+
+			// \% \_
+			auto pos_char = pos;
+			if (*pos == '\\' && (pos + 1) < end)
+				pos_char++;
 
-			auto pos_size = utf8_sizeof(*pos);
-			bool match = false;
-			while (pos_str < end_str)
+			// match exact single character
+			auto pos_str_size = utf8_sizeof(*pos_str);
+			auto pos_size = utf8_sizeof(*pos_char);
+			if (pos_str_size == pos_size && !memcmp(pos_char, pos_str, pos_size))
 			{
-				auto pos_str_size = utf8_sizeof(*pos_str);
-				match = pos_str_size == pos_size && !memcmp(pos, pos_str, pos_size);
 				pos_str += pos_str_size;
-				if (match)
-					break;
+				pos = pos_char + pos_size;
+				continue;
 			}
-			if (! match)
-				return;
-			pos += pos_size;
-			continue;
 		}
 
-		// \% \_
-		if (*pos == '\\')
-			pos++;
-
-		// match exact single character
-		if (pos_str == end_str)
+		// extend the last %
+		if (! retry)
 			return;
-
-		auto pos_str_size = utf8_sizeof(*pos_str);
-		auto pos_size = utf8_sizeof(*pos);
-		if (! (pos_str_size == pos_size && !memcmp(pos, pos_str, pos_size)))
-			return;
-		pos_str += pos_str_size;
-		pos += pos_size;
+		utf8_forward(&retry_str);
+		pos_str = retry_str;
+		pos = retry;
 	}
 
-	if (pos_str != end_str)
-		return;
-
-match:
 	value_set_bool(result, true);
 }
-- 
2.43.0


From c4a89422185ee102ce93e9acbc0143960a7057f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 106/142] fix: columns of the table are not keys of its own
 index scan in a subquery

---
 amelie/compiler/plan/path.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/amelie/compiler/plan/path.c b/amelie/compiler/plan/path.c
index 4ab7ffd..a0d4afa 100644
--- a/amelie/compiler/plan/path.c
+++ b/amelie/compiler/plan/path.c
@@ -147,6 +147,15 @@ path_column(Path* self, Str* name)
 		target = target->prev;
 	}
 
+	// columns of the target itself and of the following targets hide
+	// the outer ones
+	for (target = self->target; target; target = target->next)
+	{
+		auto column = columns_find_noconflict(target->columns, name, &column_conflict);
+		if (column || column_conflict)
+			return NULL;
+	}
+
 	// search outer from targets
 	target = NULL;
 	return block_find_column(self->target->from->outer, &target, name,
@@ -173,7 +182,12 @@ path_column_compound(Path* self, Str* string)
 		target = target->prev;
 	}
 	if (! target)
+	{
+		// the target itself and the following targets hide the outer ones
+		if (from_match(self->target->from, &name))
+			return NULL;
 		target = block_find_target(self->target->from->outer, &name);
+	}
 	if (! target)
 		return NULL;
 
-- 
2.43.0


From c86d9e4069563482c2d16ec1190c6d0670b7c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 107/142] fix: do not leave a row in the heap when NOT NULL
 fails

---
 amelie/vm/value/value_data.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amelie/vm/value/value_data.h b/amelie/vm/value/value_data.h
index 1346aea..7a0d917 100644
--- a/amelie/vm/value/value_data.h
+++ b/amelie/vm/value/value_data.h
@@ -24,7 +24,13 @@ value_data_size(Value* self, Column* column, Value* refs)
 
 	// NULL
 	if (self->type == TYPE_NULL)
+	{
+		// NOT NULL constraint (before the row is allocated)
+		if (unlikely(column->constraints.not_null))
+			error("column '%.*s' cannot be NULL", str_size(&column->name),
+			      str_of(&column->name));
 		return 0;
+	}
 
 	// fixed types
 	if (column->type_size > 0)
@@ -64,13 +70,7 @@ value_data_encode(Value*    self, Column* column,
 
 	// NULL
 	if (self->type == TYPE_NULL)
-	{
-		// NOT NULL constraint
-		if (unlikely(column->constraints.not_null))
-			error("column '%.*s' cannot be NULL", str_size(&column->name),
-			      str_of(&column->name));
 		return false;
-	}
 
 	switch (column->type) {
 	case TYPE_BOOL:
-- 
2.43.0


From e1c450c8b80cbda93f55b0bdfbb52f4aec0b4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 108/142] fix: refresh a truncated partition on checkpoint

---
 amelie/db/part/part.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index d1216c8..b5dd6c9 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -97,6 +97,10 @@ part_truncate(Part* self)
 	// truncate indexes
 	for (auto index = self->indexes; index; index = index->next)
 		index_truncate(index);
+
+	// the partition file has to be refreshed before the truncate can be
+	// skipped during recover
+	track_lsn_follow(&self->track, state_lsn());
 }
 
 void
-- 
2.43.0


From ecdc7bd32f2ddd3fbb67eb3c4a78206d35efdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:44 +0000
Subject: [PATCH 109/142] fix: do not execute statements after a failed one in
 the transaction

---
 amelie/system/backend/pod.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index b20f667..b9fbacb 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -61,6 +61,11 @@ pod_replay(Pod* self, Tr* tr, Buf* arg)
 hot static void
 pod_request(Pod* self, Ltr* ltr, Req* req)
 {
+	// do not execute statements which follow the failed one (the transaction
+	// will be aborted)
+	if (unlikely(ltr->error))
+		rethrow_buf(ltr->error);
+
 	auto dtr = ltr->dtr;
 	switch (req->type) {
 	case REQ_EXECUTE:
-- 
2.43.0


From b2b8b5696fb381431de75656b5b703c5c38a4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 110/142] fix: do not replay rows of a table dropped after the
 last catalog file

---
 amelie/db/catalog/catalog_file.c  |  2 ++
 amelie/db/catalog/table_mgr.c     |  2 ++
 amelie/db/catalog/table_mgr.h     |  1 +
 amelie/db/db/recover.c            | 14 ++++++++++++++
 amelie/db/part/part_mgr.c         |  2 ++
 amelie/db/part/part_mgr.h         |  2 ++
 amelie/db/part/part_mgr_recover.c |  8 ++++++++
 7 files changed, 31 insertions(+)

diff --git a/amelie/db/catalog/catalog_file.c b/amelie/db/catalog/catalog_file.c
index 355b672..2cdd017 100644
--- a/amelie/db/catalog/catalog_file.c
+++ b/amelie/db/catalog/catalog_file.c
@@ -169,9 +169,11 @@ catalog_restore(Catalog* self, uint8_t** pos)
 		catalog_restore_object(self, RESTORE_DATABASE, &pos_databases);
 
 	// tables
+	self->table_mgr.restore = true;
 	json_read_array(&pos_tables);
 	while (! json_read_array_end(&pos_tables))
 		catalog_restore_object(self, RESTORE_TABLE, &pos_tables);
+	self->table_mgr.restore = false;
 
 	// udfs
 	catalog_restore_udfs(self, pos_udfs);
diff --git a/amelie/db/catalog/table_mgr.c b/amelie/db/catalog/table_mgr.c
index 883475e..52c8269 100644
--- a/amelie/db/catalog/table_mgr.c
+++ b/amelie/db/catalog/table_mgr.c
@@ -27,6 +27,7 @@ table_mgr_init(TableMgr*  self, StorageMgr* storage_mgr,
                void*      iface_arg)
 {
 	self->storage_mgr = storage_mgr;
+	self->restore     = false;
 	self->iface       = iface;
 	self->iface_arg   = iface_arg;
 	relation_mgr_init(&self->mgr);
@@ -63,6 +64,7 @@ table_mgr_create(TableMgr*    self,
 	relation_mgr_create(&self->mgr, tr, &table->rel);
 
 	// prepare partitions
+	table->part_mgr.restore = self->restore;
 	table_open(table);
 	return true;
 }
diff --git a/amelie/db/catalog/table_mgr.h b/amelie/db/catalog/table_mgr.h
index 9729d39..a0da48c 100644
--- a/amelie/db/catalog/table_mgr.h
+++ b/amelie/db/catalog/table_mgr.h
@@ -17,6 +17,7 @@ struct TableMgr
 {
 	RelationMgr mgr;
 	StorageMgr* storage_mgr;
+	bool        restore;
 	PartMgrIf*  iface;
 	void*       iface_arg;
 };
diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index 85ee628..0a9ea93 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -58,6 +58,10 @@ recover_map(Recover* self, Record* record, RecordCmd* cmd, Row* row)
 	auto table = table_mgr_find_by(&db->catalog.table_mgr, &cmd->id, false);
 	if  (! table)
 		return NULL;
+
+	// table partitions are already removed by the DROP
+	if (table->part_mgr.dropped)
+		return NULL;
 	auto part = part_mapping_map(&table->part_mgr.mapping, row);
 	if (! part)
 		error("recover: partition mapping failed");
@@ -238,6 +242,16 @@ recover_wal_main(Recover* self)
 		if (id == UINT64_MAX)
 			break;
 	}
+
+	// tables without partition files must be dropped by now
+	list_foreach(&self->db->catalog.table_mgr.mgr.list)
+	{
+		auto table = table_of(list_at(Relation, link));
+		if (table->part_mgr.dropped)
+			error("recover: table '%.*s' partition files are missing",
+			      str_size(&table->config->name),
+			      str_of(&table->config->name));
+	}
 }
 
 void
diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 28ae32c..d46d962 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -30,6 +30,8 @@ part_mgr_init(PartMgr*       self,
               Keys*          keys)
 {
 	self->list_count = 0;
+	self->restore    = false;
+	self->dropped    = false;
 	self->config     = config;
 	self->arg        = arg;
 	self->iface      = iface;
diff --git a/amelie/db/part/part_mgr.h b/amelie/db/part/part_mgr.h
index 069a331..d1adf6e 100644
--- a/amelie/db/part/part_mgr.h
+++ b/amelie/db/part/part_mgr.h
@@ -25,6 +25,8 @@ struct PartMgr
 	PartMapping    mapping;
 	List           list;
 	int            list_count;
+	bool           restore;
+	bool           dropped;
 	PartMgrConfig* config;
 	PartArg*       arg;
 	PartMgrIf*     iface;
diff --git a/amelie/db/part/part_mgr_recover.c b/amelie/db/part/part_mgr_recover.c
index 26342f6..2dc4954 100644
--- a/amelie/db/part/part_mgr_recover.c
+++ b/amelie/db/part/part_mgr_recover.c
@@ -154,6 +154,14 @@ part_mgr_recover(PartMgr* self)
 		part_mgr_recover_volume(self, volume);
 	}
 
+	// partitions of the table from the catalog file are removed by the DROP
+	// which follows the catalog file in the wal
+	if (self->restore && self->list_count < self->config->partitions)
+	{
+		self->dropped = true;
+		return;
+	}
+
 	// create initial partitions
 	if (! self->list_count)
 		part_mgr_create(self);
-- 
2.43.0


From 0c321689a8235f9ce1e0d4c5871e7753c8653d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:26 +0000
Subject: [PATCH 111/142] fix: sync the config and version files

---
 amelie/runtime/runtime/config.c | 3 ++-
 amelie/system/system/repo.c     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/config.c b/amelie/runtime/runtime/config.c
index 14b83ba..4f91a98 100644
--- a/amelie/runtime/runtime/config.c
+++ b/amelie/runtime/runtime/config.c
@@ -98,8 +98,9 @@ config_save(Config* self, const char* path)
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0644);
+	file_open_as(&file, path, O_CREAT|O_RDWR|O_TRUNC, 0644);
 	file_write_buf(&file, &text);
+	file_sync(&file);
 }
 
 void
diff --git a/amelie/system/system/repo.c b/amelie/system/system/repo.c
index f89fe03..2059ab9 100644
--- a/amelie/system/system/repo.c
+++ b/amelie/system/system/repo.c
@@ -106,6 +106,7 @@ repo_version_create(const char* path)
 	defer(file_close, &file);
 	file_open_as(&file, path, O_CREAT|O_RDWR, 0644);
 	file_write_buf(&file, &text);
+	file_sync(&file);
 }
 
 static void
-- 
2.43.0


From 17f714262a8595bb46311020c46fc646c3d38a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:06 +0000
Subject: [PATCH 112/142] fix: replay a truncate by the partitions which do not
 include it

---
 amelie/db/db/recover.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index 0a9ea93..f52b1ed 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -75,6 +75,38 @@ recover_map(Recover* self, Record* record, RecordCmd* cmd, Row* row)
 	return part;
 }
 
+static bool
+recover_truncate(Recover* self, Record* record, uint8_t* op)
+{
+	auto db = self->db;
+	auto pos = op;
+	int64_t cmd;
+	json_read_array(&pos);
+	json_read_integer(&pos, &cmd);
+	if (cmd != DDL_TABLE_TRUNCATE)
+		return false;
+
+	// truncate changes partitions and not the catalog file, partition
+	// can already include it or not (regardless of the catalog lsn)
+	Str name_db;
+	Str name;
+	table_op_truncate_read(op, &name_db, &name);
+	auto table = table_mgr_find(&db->catalog.table_mgr, &name_db, &name, false);
+	if (! table || table->part_mgr.dropped)
+		return true;
+	if (record->lsn > state_catalog())
+		tier_mgr_truncate(&table->tier_mgr);
+	list_foreach(&table->part_mgr.list)
+	{
+		auto part = list_at(Part, link);
+		if (record->lsn <= part->heap->header->lsn)
+			continue;
+		part_truncate(part);
+		track_lsn_follow(&part->track, record->lsn);
+	}
+	return true;
+}
+
 hot static void
 recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 {
@@ -120,6 +152,16 @@ recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 	case CMD_DDL:
 	case CMD_DDL_CREATE_INDEX:
 	{
+		// replay truncate by partition
+		if (cmd->cmd == CMD_DDL && !self->write_wal &&
+		    recover_truncate(self, record, *pos))
+		{
+			record_cmd_skip(cmd, pos);
+			if (record->lsn > state_catalog())
+				opt_int_set(&state()->catalog_pending, record->lsn);
+			break;
+		}
+
 		// skip ddl commands before the last catalog lsn
 		if (record->lsn <= state_catalog())
 		{
-- 
2.43.0


From c4fca84b8b11e20c22f2f1214ab9d84b4d9c9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:40 +0000
Subject: [PATCH 113/142] fix: complete prepared transactions before an index
 is dropped

---
 amelie/db/part/part.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index b5dd6c9..24c9378 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -147,6 +147,9 @@ part_index_drop(Part* self, Str* name)
 		error("index '%.*s': not exists", str_size(name),
 		       str_of(name));
 
+	// complete prepared transactions (they refer to the index)
+	track_sync(&self->track, &self->track.consensus);
+
 	// unlink index
 	if (tail)
 		tail->next = index->next;
-- 
2.43.0


From 22f66b5aafdfd36f79d96a89c71963faa0e5d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:00 +0000
Subject: [PATCH 114/142] fix: commit order of transactions which overlap
 several others

---
 amelie/compiler/compiler/compiler.c  |  4 +-
 amelie/vm/executor/amelie_executor.h |  2 -
 amelie/vm/executor/commit.c          | 24 +-------
 amelie/vm/executor/dtr.h             | 23 ++++---
 amelie/vm/executor/dtr_group.h       | 88 --------------------------
 amelie/vm/executor/dtr_queue.h       | 92 ----------------------------
 amelie/vm/executor/executor.h        | 72 +++++++++++++++-------
 7 files changed, 67 insertions(+), 238 deletions(-)
 delete mode 100644 amelie/vm/executor/dtr_group.h
 delete mode 100644 amelie/vm/executor/dtr_queue.h

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index 1740022..5a5ef26 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -581,7 +581,7 @@ emit_for(Compiler* self, Stmt* stmt)
 	     fora);
 
 	// set snapshot if loop is using send command
-	if (fora->block->stmts.last_send)
+	if (fora->block->stmts.last_send || fora->block->stmts.nested_send)
 		self->program->snapshot = true;
 
 	// mark last sending operation in the main block
@@ -635,7 +635,7 @@ emit_while(Compiler* self, Stmt* stmt)
 	op_set_jmp_list(self, &whilea->continues, _start);
 
 	// set snapshot if loop is using send command
-	if (whilea->block->stmts.last_send)
+	if (whilea->block->stmts.last_send || whilea->block->stmts.nested_send)
 		self->program->snapshot = true;
 
 	// mark last sending operation in the main block
diff --git a/amelie/vm/executor/amelie_executor.h b/amelie/vm/executor/amelie_executor.h
index e911a21..3c4bab6 100644
--- a/amelie/vm/executor/amelie_executor.h
+++ b/amelie/vm/executor/amelie_executor.h
@@ -31,8 +31,6 @@
 
 // distributed transaction
 #include "executor/dtr.h"
-#include "executor/dtr_group.h"
-#include "executor/dtr_queue.h"
 
 // executor
 #include "executor/batch.h"
diff --git a/amelie/vm/executor/commit.c b/amelie/vm/executor/commit.c
index bb7ff51..0197747 100644
--- a/amelie/vm/executor/commit.c
+++ b/amelie/vm/executor/commit.c
@@ -18,26 +18,11 @@
 #include <amelie_output.h>
 #include <amelie_executor.h>
 
-hot static inline void
-commit_add(DtrQueue* queue, Batch* batch, Dtr* dtr)
-{
-	auto group = dtr_queue_add(queue, dtr);
-	while (dtr_group_pending(group))
-	{
-		auto dtr = dtr_group_pop(group);
-		batch_add(batch, dtr);
-	}
-}
-
 static void
 commit_main(void* arg)
 {
 	Commit* self = arg;
 
-	DtrQueue queue;
-	dtr_queue_init(&queue);
-	defer(dtr_queue_free, &queue);
-
 	Batch batch;
 	batch_init(&batch);
 	defer(batch_free, &batch);
@@ -49,9 +34,9 @@ commit_main(void* arg)
 
 		// collect prepared transactions
 		batch_reset(&batch);
-		commit_add(&queue, &batch, (Dtr*)msg);
+		executor_resolve(self->executor, &batch, (Dtr*)msg);
 		while ((msg = task_recv_try()))
-			commit_add(&queue, &batch, (Dtr*)msg);
+			executor_resolve(self->executor, &batch, (Dtr*)msg);
 		if (batch_empty(&batch))
 			continue;
 
@@ -74,13 +59,10 @@ commit_main(void* arg)
 		// update global commit/abort metrics and detach
 		// transactions
 		//
-		auto group_min = executor_detach(self->executor, &batch);
+		executor_detach(self->executor, &batch);
 
 		// wakeup and unlock prepared transaction
 		batch_complete(&batch);
-
-		// remove all groups < group_min
-		dtr_queue_gc(&queue, group_min);
 	}
 }
 
diff --git a/amelie/vm/executor/dtr.h b/amelie/vm/executor/dtr.h
index b0014a7..10458dc 100644
--- a/amelie/vm/executor/dtr.h
+++ b/amelie/vm/executor/dtr.h
@@ -16,8 +16,10 @@ typedef struct Dtr Dtr;
 struct Dtr
 {
 	Msg         msg;
-	uint64_t    group;
-	uint64_t    group_order;
+	bool        attached;
+	bool        completed;
+	bool        resolved;
+	int         deps;
 	DispatchMgr dispatch_mgr;
 	Program*    program;
 	Buf*        error;
@@ -26,7 +28,6 @@ struct Dtr
 	Event       on_commit;
 	Limit       limit;
 	Local*      local;
-	Dtr*        link_group;
 	List        link_batch;
 	List        link;
 };
@@ -34,13 +35,14 @@ struct Dtr
 static inline void
 dtr_init(Dtr* self, Local* local)
 {
-	self->group       = 0;
-	self->group_order = 0;
+	self->attached    = false;
+	self->completed   = false;
+	self->resolved    = false;
+	self->deps        = 0;
 	self->program     = NULL;
 	self->error       = NULL;
 	self->abort       = false;
 	self->local       = local;
-	self->link_group  = NULL;
 	dispatch_mgr_init(&self->dispatch_mgr, self);
 	event_init(&self->on_commit);
 	limit_init(&self->limit, opt_int_of(&config()->limit_write));
@@ -53,11 +55,12 @@ dtr_init(Dtr* self, Local* local)
 static inline void
 dtr_reset(Dtr* self)
 {
-	self->group       = 0;
-	self->group_order = 0;
+	self->attached    = false;
+	self->completed   = false;
+	self->resolved    = false;
+	self->deps        = 0;
 	self->program     = NULL;
 	self->abort       = false;
-	self->link_group  = NULL;
 	if (self->error)
 	{
 		buf_free(self->error);
@@ -89,7 +92,7 @@ dtr_prepare(Dtr* self, Program* program)
 static inline bool
 dtr_active(Dtr* self)
 {
-	return self->group != 0;
+	return self->attached;
 }
 
 static inline void
diff --git a/amelie/vm/executor/dtr_group.h b/amelie/vm/executor/dtr_group.h
deleted file mode 100644
index 1406aa8..0000000
--- a/amelie/vm/executor/dtr_group.h
+++ /dev/null
@@ -1,88 +0,0 @@
-#pragma once
-
-//
-// amelie.
-//
-// Real-Time SQL OLTP Database.
-//
-// Copyright (c) 2024 Dmitry Simonenko.
-// Copyright (c) 2024 Amelie Labs.
-//
-// AGPL-3.0 Licensed.
-//
-
-typedef struct DtrGroup DtrGroup;
-
-struct DtrGroup
-{
-	uint64_t id;
-	uint64_t id_next;
-	Dtr*     list;
-	List     link;
-};
-
-static inline DtrGroup*
-dtr_group_allocate(void)
-{
-	auto self = (DtrGroup*)am_malloc(sizeof(DtrGroup));
-	self->id      = 0;
-	self->id_next = 0;
-	self->list    = NULL;
-	list_init(&self->link);
-	return self;
-}
-
-static inline void
-dtr_group_free(DtrGroup* self)
-{
-	am_free(self);
-}
-
-static inline void
-dtr_group_reset(DtrGroup* self)
-{
-	self->id      = 0;
-	self->id_next = 0;
-	self->list    = NULL;
-	list_init(&self->link);
-}
-
-static inline bool
-dtr_group_pending(DtrGroup* self)
-{
-	return self->list && self->list->group_order == self->id_next;
-}
-
-static inline void
-dtr_group_add(DtrGroup* self, Dtr* dtr)
-{
-	Dtr* prev = NULL;
-	auto pos = self->list;
-	while (pos)
-	{
-		if (dtr->group_order < pos->group_order)
-			break;
-		prev = pos;
-		pos = pos->link_group;
-	}
-	if (prev)
-	{
-		dtr->link_group = prev->link_group;
-		prev->link_group = dtr;
-	} else
-	{
-		dtr->link_group = self->list;
-		self->list = dtr;
-	}
-}
-
-static inline Dtr*
-dtr_group_pop(DtrGroup* self)
-{
-	assert(dtr_group_pending(self));
-	auto next = self->list;
-	self->list = next->link_group;
-	self->id_next++;
-	next->link_group = NULL;
-	return next;
-}
diff --git a/amelie/vm/executor/dtr_queue.h b/amelie/vm/executor/dtr_queue.h
deleted file mode 100644
index 2e8632f..0000000
--- a/amelie/vm/executor/dtr_queue.h
+++ /dev/null
@@ -1,92 +0,0 @@
-#pragma once
-
-//
-// amelie.
-//
-// Real-Time SQL OLTP Database.
-//
-// Copyright (c) 2024 Dmitry Simonenko.
-// Copyright (c) 2024 Amelie Labs.
-//
-// AGPL-3.0 Licensed.
-//
-
-typedef struct DtrQueue DtrQueue;
-
-struct DtrQueue
-{
-	List list;
-	List cache;
-	int  cache_count;
-};
-
-static inline void
-dtr_queue_init(DtrQueue* self)
-{
-	self->cache_count = 0;
-	list_init(&self->list);
-	list_init(&self->cache);
-}
-
-static inline void
-dtr_queue_free(DtrQueue* self)
-{
-	list_foreach_safe(&self->cache)
-	{
-		auto group = list_at(DtrGroup, link);
-		dtr_group_free(group);
-	}
-}
-
-hot static inline void
-dtr_queue_gc(DtrQueue* self, uint64_t min)
-{
-	list_foreach_safe(&self->list)
-	{
-		auto ref = list_at(DtrGroup, link);
-		if (ref->id < min)
-		{
-			assert(! ref->list);
-			list_unlink(&ref->link);
-			dtr_group_reset(ref);
-			list_append(&self->cache, &ref->link);
-			self->cache_count++;
-		}
-	}
-}
-
-hot static inline DtrGroup*
-dtr_queue_find(DtrQueue* self, uint64_t id)
-{
-	list_foreach_safe(&self->list)
-	{
-		auto ref = list_at(DtrGroup, link);
-		if (ref->id == id)
-			return ref;
-	}
-	return NULL;
-}
-
-hot static inline DtrGroup*
-dtr_queue_add(DtrQueue* self, Dtr* dtr)
-{
-	// find or create new group
-	auto group = dtr_queue_find(self, dtr->group);
-	if (! group)
-	{
-		if (self->cache_count > 0)
-		{
-			auto first = list_pop(&self->cache);
-			self->cache_count--;
-			group = container_of(first, DtrGroup, link);
-			list_init(&group->link);
-		} else {
-			group = dtr_group_allocate();
-		}
-		group->id = dtr->group;
-		list_append(&self->list, &group->link);
-	}
-
-	dtr_group_add(group, dtr);
-	return group;
-}
diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index ea7ef3a..4c702b2 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -16,14 +16,12 @@ typedef struct Executor Executor;
 struct Executor
 {
 	Spinlock lock;
-	uint64_t id;
 	List     list;
 };
 
 static inline void
 executor_init(Executor* self)
 {
-	self->id = 1;
 	list_init(&self->list);
 	spinlock_init(&self->lock);
 }
@@ -39,11 +37,19 @@ executor_attach(Executor* self, Dtr* dtr, Dispatch* dispatch)
 {
 	spinlock_lock(&self->lock);
 
-	// match overlapping transaction group
+	// match overlapping transactions
+	//
+	// transaction depends on every previously attached transaction which
+	// shares a partition with it and which is not decided yet, it cannot be
+	// committed before them
+	//
 	auto is_snapshot = dtr->program->snapshot;
 	list_foreach_reverse(&self->list)
 	{
 		auto ref = list_at(Dtr, link);
+		if (ref->resolved)
+			continue;
+
 		// find overlapping partitions
 		bool overlaps;
 		if (is_snapshot)
@@ -51,23 +57,12 @@ executor_attach(Executor* self, Dtr* dtr, Dispatch* dispatch)
 		else
 			overlaps = dispatch_mgr_overlaps_dispatch(&ref->dispatch_mgr, dispatch);
 
-		// derive transaction group on overlap
 		if (overlaps)
-		{
-			dtr->group = ref->group;
-			dtr->group_order = ref->group_order + 1;
-			break;
-		}
-	}
-
-	// start new transaction group
-	if (! dtr->group)
-	{
-		dtr->group = self->id++;
-		dtr->group_order = 0;
+			dtr->deps++;
 	}
 
 	// register transaction
+	dtr->attached = true;
 	list_append(&self->list, &dtr->link);
 
 	// begin execution
@@ -133,7 +128,44 @@ executor_sync(Executor* self, Dtr* dtr)
 	dispatch_wait(dispatch);
 }
 
-hot static inline uint64_t
+hot static inline void
+executor_resolve(Executor* self, Batch* batch, Dtr* dtr)
+{
+	// called from Commit on transaction completion
+	spinlock_lock(&self->lock);
+	dtr->completed = true;
+
+	// add transaction and all completed transactions which were waiting
+	// for it to the batch
+	auto pos = batch->list_count;
+	if (! dtr->deps)
+	{
+		dtr->resolved = true;
+		batch_add(batch, dtr);
+	}
+	for (; pos < batch->list_count; pos++)
+	{
+		auto at = batch_at(batch, pos);
+		auto next = at->link.next;
+		for (; next != &self->list; next = next->next)
+		{
+			auto ref = container_of(next, Dtr, link);
+			if (ref->resolved)
+				continue;
+			if (! dispatch_mgr_overlaps(&at->dispatch_mgr, &ref->dispatch_mgr))
+				continue;
+			ref->deps--;
+			if (!ref->deps && ref->completed)
+			{
+				ref->resolved = true;
+				batch_add(batch, ref);
+			}
+		}
+	}
+	spinlock_unlock(&self->lock);
+}
+
+hot static inline void
 executor_detach(Executor* self, Batch* batch)
 {
 	// group completion (called from Commit)
@@ -161,11 +193,5 @@ executor_detach(Executor* self, Batch* batch)
 		list_unlink(&dtr->link);
 	}
 
-	// get min group as oldest transaction group id
-	uint64_t group_min = UINT64_MAX;
-	if (! list_empty(&self->list))
-		group_min = container_of(list_first(&self->list), Dtr, link)->group;
-
 	spinlock_unlock(&self->lock);
-	return group_min;
 }
-- 
2.43.0


From 7febce7458ac6f0320a41014112e8d3eff337dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:16 +0000
Subject: [PATCH 115/142] fix: recover a table whose files are removed in part

---
 amelie/db/part/part_mgr_recover.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/db/part/part_mgr_recover.c b/amelie/db/part/part_mgr_recover.c
index 2dc4954..4c6e299 100644
--- a/amelie/db/part/part_mgr_recover.c
+++ b/amelie/db/part/part_mgr_recover.c
@@ -155,8 +155,9 @@ part_mgr_recover(PartMgr* self)
 	}
 
 	// partitions of the table from the catalog file are removed by the DROP
-	// which follows the catalog file in the wal
-	if (self->restore && self->list_count < self->config->partitions)
+	// which follows the catalog file in the wal (all or some of them)
+	if ((self->restore || self->list_count) &&
+	    self->list_count < self->config->partitions)
 	{
 		self->dropped = true;
 		return;
-- 
2.43.0


From 7a67efd20ce523d3ea49732811f8340f96524fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:21 +0000
Subject: [PATCH 116/142] fix: undo transactions executed on top of an aborted
 one before it

---
 amelie/db/transaction/commit.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/amelie/db/transaction/commit.c b/amelie/db/transaction/commit.c
index c5c171f..85277b4 100644
--- a/amelie/db/transaction/commit.c
+++ b/amelie/db/transaction/commit.c
@@ -51,19 +51,27 @@ tr_commit(Tr* self)
 	tr_end(self, false);
 }
 
-void
-tr_abort(Tr* self)
+static inline void
+tr_undo(Tr* self)
 {
-	if (unlikely(! tr_active(self)))
-		error("transaction is not active");
-
+	if (self->aborted)
+		return;
 	auto log = &self->log;
 	for (int pos = self->log.count - 1; pos >= 0; pos--)
 	{
 		auto op = log_of(log, pos);
 		op->iface->abort(log, op);
 	}
+	self->aborted = true;
+}
+
+void
+tr_abort(Tr* self)
+{
+	if (unlikely(! tr_active(self)))
+		error("transaction is not active");
 
+	tr_undo(self);
 	tr_end(self, true);
 }
 
@@ -88,6 +96,9 @@ void
 tr_abort_list(TrList* self, TrCache* cache, uint64_t id)
 {
 	// abort all transactions <= id
+	//
+	// transactions which were executed on top of them are going to be aborted
+	// as well, undo their changes first (the logs can still be in use)
 	list_foreach_reverse_safe(&self->list)
 	{
 		auto tr = list_at(Tr, link);
@@ -97,6 +108,8 @@ tr_abort_list(TrList* self, TrCache* cache, uint64_t id)
 			self->list_count--;
 			tr_abort(tr);
 			tr_cache_push(cache, tr);
+		} else {
+			tr_undo(tr);
 		}
 	}
 }
-- 
2.43.0


From e48aec7b4577582a2fe1478272e79ba662e2d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:19 +0000
Subject: [PATCH 117/142] fix: access loop and table variables from statements
 executed on backends

---
 amelie/compiler/compiler/scan.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amelie/compiler/compiler/scan.c b/amelie/compiler/compiler/scan.c
index 0b8f9ca..ee6bd8d 100644
--- a/amelie/compiler/compiler/scan.c
+++ b/amelie/compiler/compiler/scan.c
@@ -224,7 +224,6 @@ scan_expr(Scan* self, Target* target)
 		}
 		case TARGET_STMT:
 			r = target->from_stmt->r;
-			target_set_origin(target, ORIGIN_FRONTEND);
 
 			// create reference, if frontend value is accessed from backend
 			type = rtype(cp, r);
@@ -236,8 +235,8 @@ scan_expr(Scan* self, Target* target)
 				r = op2pin(cp, CDUP, type, r);
 			}
 
-			// futher object access will be using cursor created on backend
-			target_set_origin(target, ORIGIN_BACKEND);
+			// futher object access will be using cursor created here
+			target_set_origin(target, cp->origin);
 			break;
 		case TARGET_VAR:
 		{
@@ -252,8 +251,8 @@ scan_expr(Scan* self, Target* target)
 				r = op3pin(cp, CVAR, type, var->order, var->is_arg);
 			}
 
-			// futher object access will be using cursor created on backend
-			target_set_origin(target, ORIGIN_FRONTEND);
+			// futher object access will be using cursor created here
+			target_set_origin(target, cp->origin);
 			break;
 		}
 		default:
-- 
2.43.0


From 68e8836f533f51f15a85f78fd38ea5178484529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:57 +0000
Subject: [PATCH 118/142] fix: insert from a query which returns nothing

---
 amelie/vm/executor/dispatch.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/vm/executor/dispatch.h b/amelie/vm/executor/dispatch.h
index 3b7fead..009c450 100644
--- a/amelie/vm/executor/dispatch.h
+++ b/amelie/vm/executor/dispatch.h
@@ -75,7 +75,6 @@ dispatch_set_close(Dispatch* self)
 static inline void
 dispatch_prepare(Dispatch* self)
 {
-	assert(self->list_count > 0);
 	complete_prepare(&self->complete, self->list_count);
 }
 
@@ -113,8 +112,10 @@ dispatch_find(Dispatch* self, Part* part)
 static inline void
 dispatch_wait(Dispatch* self)
 {
-	// wait for dispatch completion
+	// wait for dispatch completion (nothing is sent for an empty insert)
 	assert(self->returning);
+	if (! self->list_count)
+		return;
 	complete_wait(&self->complete);
 }
 
-- 
2.43.0


From aa92969f871891d48fd55f46b0595199b68dce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:23 +0000
Subject: [PATCH 119/142] fix: do not return values which refer to memory of
 rows

---
 amelie/system/backend/pod.c |  5 ++++
 amelie/vm/set/set.c         | 56 +++++++++++++++++++++++++++++++++++++
 amelie/vm/set/set.h         |  1 +
 3 files changed, 62 insertions(+)

diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index b9fbacb..6d2ff57 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -102,7 +102,12 @@ pod_request(Pod* self, Ltr* ltr, Req* req)
 		        req->start);
 
 		if (ret.value)
+		{
 			value_move(&req->result, ret.value);
+			auto result = &req->result;
+			if (result->type == TYPE_STORE && result->store->type == STORE_SET)
+				set_detach((Set*)result->store);
+		}
 		break;
 	}
 	case REQ_SYNC:
diff --git a/amelie/vm/set/set.c b/amelie/vm/set/set.c
index a5b346d..286266a 100644
--- a/amelie/vm/set/set.c
+++ b/amelie/vm/set/set.c
@@ -132,6 +132,62 @@ set_add(Set* self, Value* values)
 		value_copy(set_column(self, row, i), &values[i]);
 }
 
+hot void
+set_detach(Set* self)
+{
+	// copy data of values which refer to the rows memory, rows can be
+	// changed and removed before the set is used
+	if (self->distinct_aggs)
+		set_detach(self->distinct_aggs);
+
+	Buf* buf = NULL;
+	for (auto i = 0; i < self->count; i++)
+	{
+		auto value = set_value(self, i);
+		if (value->buf)
+			continue;
+		void** ref;
+		int    size;
+		switch (value->type) {
+		case TYPE_STRING:
+			ref  = (void**)&value->string.pos;
+			size = str_size(&value->string);
+			break;
+		case TYPE_JSON:
+			ref  = (void**)&value->json;
+			size = value->json_size;
+			break;
+		case TYPE_VECTOR:
+			ref  = (void**)&value->vector;
+			size = vector_size(value->vector);
+			break;
+		default:
+			continue;
+		}
+
+		// use same buffer for several values
+		int size_aligned = (size + 7) & ~7;
+		if (!buf || buf_size_unused(buf) < size_aligned)
+		{
+			if (buf)
+				buf_free(buf);
+			buf = NULL;
+			buf = buf_create();
+			buf_reserve(buf, size_aligned > 4096 ? size_aligned : 4096);
+		}
+		memcpy(buf->position, *ref, size);
+		if (value->type == TYPE_STRING)
+			str_set(&value->string, (char*)buf->position, size);
+		else
+			*ref = buf->position;
+		buf_advance(buf, size_aligned);
+		value->buf = buf;
+		buf_ref(buf);
+	}
+	if (buf)
+		buf_free(buf);
+}
+
 hot int
 set_upsert(Set*  self, Value* keys, uint32_t hash_value,
            bool* exists)
diff --git a/amelie/vm/set/set.h b/amelie/vm/set/set.h
index 207527e..4a92029 100644
--- a/amelie/vm/set/set.h
+++ b/amelie/vm/set/set.h
@@ -77,5 +77,6 @@ void   set_set_distinct_aggs(Set*, Set*);
 void   set_sort(Set*);
 Value* set_reserve(Set*);
 void   set_add(Set*, Value*);
+void   set_detach(Set*);
 int    set_upsert(Set*, Value*, uint32_t, bool*);
 int    set_upsert_ptr(Set*, Value**, uint32_t, bool*);
-- 
2.43.0


From 8a128f3a6637922735513afd5f630ce18f1c1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 120/142] fix: report an error when a request is nested too
 deep

---
 amelie/compiler/compiler/compiler.c    |  2 ++
 amelie/compiler/compiler/emit_expr.c   |  2 ++
 amelie/compiler/compiler/emit_select.c |  2 ++
 amelie/compiler/parser/parse.c         |  4 ++++
 amelie/compiler/parser/parse_expr.c    |  2 ++
 amelie/compiler/parser/parse_from.c    |  2 ++
 amelie/compiler/parser/parse_select.c  |  2 ++
 amelie/compiler/plan/path_op.h         |  2 ++
 amelie/runtime/base/runtime.h          | 10 ++++++++++
 amelie/vm/vm/vm.c                      |  2 ++
 10 files changed, 30 insertions(+)

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index 5a5ef26..e882e26 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -798,6 +798,8 @@ emit_end(Compiler* self, Block* block)
 hot static void
 emit_block(Compiler* self, Block* block)
 {
+	coroutine_stack_check();
+
 	auto stmt_prev = self->current;
 	self->current = NULL;
 
diff --git a/amelie/compiler/compiler/emit_expr.c b/amelie/compiler/compiler/emit_expr.c
index 3121a79..c84591a 100644
--- a/amelie/compiler/compiler/emit_expr.c
+++ b/amelie/compiler/compiler/emit_expr.c
@@ -953,6 +953,8 @@ emit_at_timezone(Compiler* self, From* from, Ast* ast)
 hot int
 emit_expr(Compiler* self, From* from, Ast* ast)
 {
+	coroutine_stack_check();
+
 	switch (ast->id) {
 	// consts
 	case KNULL:
diff --git a/amelie/compiler/compiler/emit_select.c b/amelie/compiler/compiler/emit_select.c
index 07ad3cc..bef2ccb 100644
--- a/amelie/compiler/compiler/emit_select.c
+++ b/amelie/compiler/compiler/emit_select.c
@@ -493,6 +493,8 @@ emit_plan(Compiler* self, Plan* plan, bool recv)
 int
 emit_select(Compiler* self, Ast* ast, bool emit_store)
 {
+	coroutine_stack_check();
+
 	AstSelect* select = ast_select_of(ast);
 	if (! select->plan)
 		select->plan = plan_create(ast, emit_store);
diff --git a/amelie/compiler/parser/parse.c b/amelie/compiler/parser/parse.c
index e10abe2..79c29ef 100644
--- a/amelie/compiler/parser/parse.c
+++ b/amelie/compiler/parser/parse.c
@@ -180,6 +180,8 @@ parse_stmt_return(Stmt* self)
 hot void
 parse_stmt(Stmt* self)
 {
+	coroutine_stack_check();
+
 	// [RETURN var | stmt | expr | ;]
 	if (parse_stmt_return(self))
 		return;
@@ -575,6 +577,8 @@ parse_stmt(Stmt* self)
 hot void
 parse_block(Parser* self, Block* block)
 {
+	coroutine_stack_check();
+
 	// stmt [; stmt]
 	auto lex = &self->lex;
 	for (;;)
diff --git a/amelie/compiler/parser/parse_expr.c b/amelie/compiler/parser/parse_expr.c
index 61dd346..5679996 100644
--- a/amelie/compiler/parser/parse_expr.c
+++ b/amelie/compiler/parser/parse_expr.c
@@ -1095,6 +1095,8 @@ parse_op(Stmt*     self, Expr* expr,
 hot Ast*
 parse_expr(Stmt* self, Expr* expr)
 {
+	coroutine_stack_check();
+
 	AstStack ops;
 	ast_stack_init(&ops);
 
diff --git a/amelie/compiler/parser/parse_from.c b/amelie/compiler/parser/parse_from.c
index 6e37e61..113f56a 100644
--- a/amelie/compiler/parser/parse_from.c
+++ b/amelie/compiler/parser/parse_from.c
@@ -20,6 +20,8 @@
 static Target*
 parse_from_target(Stmt* self, From* from, LockId lock, bool subquery)
 {
+	coroutine_stack_check();
+
 	auto target = target_allocate();
 
 	// force read keywords as names
diff --git a/amelie/compiler/parser/parse_select.c b/amelie/compiler/parser/parse_select.c
index 077d22f..308a02f 100644
--- a/amelie/compiler/parser/parse_select.c
+++ b/amelie/compiler/parser/parse_select.c
@@ -110,6 +110,8 @@ parse_select_distinct(Stmt* self, AstSelect* select)
 hot AstSelect*
 parse_select(Stmt* self, From* outer, bool subquery)
 {
+	coroutine_stack_check();
+
 	// SELECT [ALL | DISTINCT] expr, ...
 	// [INTO name]
 	// [FROM name, [...]]
diff --git a/amelie/compiler/plan/path_op.h b/amelie/compiler/plan/path_op.h
index a657116..e385fc7 100644
--- a/amelie/compiler/plan/path_op.h
+++ b/amelie/compiler/plan/path_op.h
@@ -51,6 +51,8 @@ path_ops_init(PathOps* self, AstList* names)
 static inline void
 path_ops_add(PathOps* self, Ast* expr, int start, int end)
 {
+	coroutine_stack_check();
+
 	switch (expr->id) {
 	case KAND:
 	{
diff --git a/amelie/runtime/base/runtime.h b/amelie/runtime/base/runtime.h
index c6539b0..2bcab4d 100644
--- a/amelie/runtime/base/runtime.h
+++ b/amelie/runtime/base/runtime.h
@@ -139,6 +139,16 @@ coroutine_yield(void)
 	event_wait(&on_timer, 0);
 }
 
+hot static inline void
+coroutine_stack_check(void)
+{
+	// report an error before recursion runs out of the coroutine stack
+	auto stack = &am_self()->stack;
+	if (unlikely(stack->pointer &&
+	    (uintptr_t)__builtin_frame_address(0) - (uintptr_t)stack->pointer < stack->size / 4))
+		error("stack limit reached, the request is nested too deep");
+}
+
 static inline void
 cancel_pause(void)
 {
diff --git a/amelie/vm/vm/vm.c b/amelie/vm/vm/vm.c
index a8c62b4..b761b3f 100644
--- a/amelie/vm/vm/vm.c
+++ b/amelie/vm/vm/vm.c
@@ -84,6 +84,8 @@ vm_run(Vm*       self,
        bool      allow_close,
        int       start)
 {
+	coroutine_stack_check();
+
 	self->local       = local;
 	self->tr          = tr;
 	self->program     = program;
-- 
2.43.0


From 62bfcf3f738c5f345f2b80b84a124fe465c41b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 121/142] fix: do not read numbers out of the text

---
 amelie/compiler/parser/lex.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/amelie/compiler/parser/lex.c b/amelie/compiler/parser/lex.c
index 186bd8a..3e4898e 100644
--- a/amelie/compiler/parser/lex.c
+++ b/amelie/compiler/parser/lex.c
@@ -245,12 +245,37 @@ lex_next(Lex* self)
 		return lex_return(self, ast, KINT, start);
 
 reread_as_float:;
-		char* end = NULL;
+		// digits[.digits][e[+-]digits]
+		while (self->pos < self->end && isdigit(*self->pos))
+			self->pos++;
+		if (self->pos < self->end && *self->pos == '.')
+		{
+			self->pos++;
+			while (self->pos < self->end && isdigit(*self->pos))
+				self->pos++;
+		}
+		if (self->pos < self->end && (*self->pos == 'e' || *self->pos == 'E'))
+		{
+			auto exp = self->pos + 1;
+			if (exp < self->end && (*exp == '-' || *exp == '+'))
+				exp++;
+			if (exp < self->end && isdigit(*exp))
+			{
+				while (exp < self->end && isdigit(*exp))
+					exp++;
+				self->pos = exp;
+			}
+		}
+
+		// the text is not terminated, convert its copy
+		auto  size = self->pos - start;
+		char* number = palloc(size + 1);
+		memcpy(number, start, size);
+		number[size] = 0;
 		errno = 0;
-		ast->real = strtod(start, &end);
+		ast->real = strtod(number, NULL);
 		if (errno == ERANGE)
 			lex_return_error(self, ast, start, "float overflow");
-		self->pos = end;
 		return lex_return(self, ast, KREAL, start);
 	}
 
-- 
2.43.0


From 50e6a4eaee9296fb786e31edce0049b5bbe2c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 122/142] fix: profile without a command

---
 amelie/compiler/parser/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/compiler/parser/parse.c b/amelie/compiler/parser/parse.c
index 79c29ef..e6abca2 100644
--- a/amelie/compiler/parser/parse.c
+++ b/amelie/compiler/parser/parse.c
@@ -663,7 +663,7 @@ parse(Parser* self, Program* program, Str* str)
 		}
 
 	} else
-	if (lex_if(lex, KPROFILE))
+	if ((explain = lex_if(lex, KPROFILE)))
 		self->profile = true;
 
 	// create main namespace and the main block
-- 
2.43.0


From 7eadf947452a4193f1016ec4bb1e94ae341b8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 123/142] fix: use interval as a condition

---
 amelie/vm/value/compare.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/vm/value/compare.h b/amelie/vm/value/compare.h
index 389b255..bea4b9d 100644
--- a/amelie/vm/value/compare.h
+++ b/amelie/vm/value/compare.h
@@ -29,6 +29,7 @@ value_is_true(Value* a)
 	case TYPE_JSON:
 		break;
 	case TYPE_INTERVAL:
+		return a->interval.m || a->interval.d || a->interval.us;
 	case TYPE_VECTOR:
 		return a->vector->size > 0;
 	// TYPE_AVG
-- 
2.43.0


From 1eb7d5a0f927414b306b75f4585a2c20a1eec404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 124/142] fix: combine values and operators of a bad expression

---
 amelie/compiler/parser/parse_expr.c | 54 +++++++++++++++++------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/amelie/compiler/parser/parse_expr.c b/amelie/compiler/parser/parse_expr.c
index 5679996..e784689 100644
--- a/amelie/compiler/parser/parse_expr.c
+++ b/amelie/compiler/parser/parse_expr.c
@@ -851,6 +851,15 @@ expr_value(Stmt* self, Expr* expr, Ast* value)
 	return value;
 }
 
+hot static inline bool
+parse_unary_value(Stmt* self)
+{
+	// unary operator is followed by a value
+	auto next = stmt_next(self);
+	stmt_push(self, next);
+	return priority_map[next->id] == priority_value;
+}
+
 hot static inline bool
 parse_unary(Stmt*     self, Expr* expr,
             AstStack* ops,
@@ -867,7 +876,7 @@ parse_unary(Stmt*     self, Expr* expr,
 	case KNOT:
 		// not expr
 		expr_operator(self, ops, result, ast, 11);
-		break;
+		return parse_unary_value(self);
 	case '-':
 	{
 		// - expr
@@ -891,12 +900,12 @@ parse_unary(Stmt*     self, Expr* expr,
 		stmt_push(self, next);
 		ast->id = KNEG;
 		expr_operator(self, ops, result, ast, 11);
-		break;
+		return parse_unary_value(self);
 	}
 	case '~':
 		// ~ expr
 		expr_operator(self, ops, result, ast, 11);
-		break;
+		return parse_unary_value(self);
 	default:
 		stmt_error(self, ast, "bad expression");
 		break;
@@ -970,11 +979,14 @@ parse_op(Stmt*     self, Expr* expr,
 			r->r = parse_expr(self, expr);
 			ast_push(result, r);
 			stmt_expect(self, ')');
+
+			// right expression is complete
+			expr_pop(self, ops, result);
 		} else
 		{
 			stmt_push(self, r);
+			unary = true;
 		}
-		unary = true;
 		break;
 	}
 	case KNOT_BETWEEN:
@@ -1002,6 +1014,9 @@ parse_op(Stmt*     self, Expr* expr,
 		and->l = l;
 		and->r = parse_expr(self, &lr_expr);
 		ast_push(result, and);
+
+		// right expression is complete
+		expr_pop(self, ops, result);
 		break;
 	}
 	case KIS:
@@ -1010,6 +1025,7 @@ parse_op(Stmt*     self, Expr* expr,
 		auto not = stmt_if(self, KNOT);
 		ast->integer = !not;
 		// right expression must be null
+		unary = true;
 		break;
 	}
 	case KLIKE:
@@ -1027,6 +1043,9 @@ parse_op(Stmt*     self, Expr* expr,
 		stmt_expect(self, '(');
 		auto r = parse_expr_args(self, expr, ')', false);
 		ast_push(result, r);
+
+		// right expression is complete
+		expr_pop(self, ops, result);
 		break;
 	}
 	case KAT:
@@ -1127,6 +1146,13 @@ parse_expr(Stmt* self, Expr* expr)
 		} else
 		if (priority == priority_value)
 		{
+			// value without operator ends the expression
+			if (! unary)
+			{
+				stmt_push(self, ast);
+				break;
+			}
+
 			// value
 			auto value = expr_value(self, expr, ast);
 			ast_push(&result, value);
@@ -1145,24 +1171,8 @@ parse_expr(Stmt* self, Expr* expr)
 		expr_pop(self, &ops, &result);
 
 	// only one result
-	if (! result.list)
+	if (!result.list || result.list->next)
 		stmt_error(self, NULL, "bad expression");
 
-	if (likely(result.list->next == NULL))
-		return result.list;
-
-	// use head as a result
-	auto head = result.list;
-	head->next->prev = NULL;
-	head->next = NULL;
-
-	// pushback the rest
-	auto prev = result.list_tail;
-	while (prev)
-	{
-		auto prev_prev = prev->prev;
-		stmt_push(self, ast_pop(&result));
-		prev = prev_prev;
-	}
-	return head;
+	return result.list;
 }
-- 
2.43.0


From 53a90f1cda6c9ce2cad531ec6a61a59614820efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 125/142] fix: default of identity column and default variable

---
 amelie/compiler/parser/parse_table.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amelie/compiler/parser/parse_table.c b/amelie/compiler/parser/parse_table.c
index 2b39d33..3145ac0 100644
--- a/amelie/compiler/parser/parse_table.c
+++ b/amelie/compiler/parser/parse_table.c
@@ -86,7 +86,11 @@ parse_default(Stmt* self, Column* column, Buf* buf)
 	Value value;
 	value_init(&value);
 	defer(value_free, &value);
-	parse_value(self, NULL, column, &value);
+	auto ast = parse_value(self, NULL, column, &value);
+	if (column->constraints.as_identity)
+		stmt_error(self, ast, "DEFAULT cannot be used with identity column");
+	if (value.type == TYPE_REF)
+		stmt_error(self, ast, "DEFAULT value must be a constant");
 
 	// encode value as row data
 	auto size = value_data_size(&value, column, NULL);
-- 
2.43.0


From 2cc7d164cbf82476e2748bbc6b06b3b672d3c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 126/142] fix: access columns of a target which is not opened

---
 amelie/compiler/compiler/emit_expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/compiler/compiler/emit_expr.c b/amelie/compiler/compiler/emit_expr.c
index c84591a..1334f0c 100644
--- a/amelie/compiler/compiler/emit_expr.c
+++ b/amelie/compiler/compiler/emit_expr.c
@@ -120,6 +120,10 @@ emit_column(Compiler* self,
 		return emit_column_path(self, ast, r, path);
 	}
 
+	// target must be already opened
+	if (target->rcursor == -1)
+		stmt_error(self->current, ast, "column cannot be accessed before its target");
+
 	// generate cursor read based on the target
 	if (target->type == TARGET_TABLE)
 	{
@@ -401,7 +405,8 @@ emit_name_compound(Compiler* self, From* from, Ast* ast)
 		           str_size(&name), str_of(&name));
 
 	// target.path
-	if (rtype(self, target->r) != TYPE_JSON)
+	if (target->rcursor == -1 ||
+	    rtype(self, target->rcursor) != TYPE_CURSOR_JSON)
 		stmt_error(self->current, ast, "column %.*s.%.*s not found",
 		           str_size(&target->name), str_of(&target->name),
 		           str_size(&name), str_of(&name));
-- 
2.43.0


From d224a9005d4622095b4f69c0adc4e0bdba032825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:11 +0000
Subject: [PATCH 127/142] fix: group by the same expression twice

---
 amelie/compiler/parser/parse_select.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amelie/compiler/parser/parse_select.c b/amelie/compiler/parser/parse_select.c
index 308a02f..c7a8069 100644
--- a/amelie/compiler/parser/parse_select.c
+++ b/amelie/compiler/parser/parse_select.c
@@ -379,6 +379,13 @@ parse_select_resolve_group_by_alias(Stmt* self, AstSelect* select)
 			if (ast_agg_of(node->ast)->as == as)
 				stmt_error(self, group->expr, "aggregate functions cannot be used in GROUP BY expressions");
 
+		// same expression is already used as a group by key
+		if (as->l->id == KAGGRKEY)
+		{
+			group->expr = ast_group_of(as->l)->expr;
+			continue;
+		}
+
 		// use the returning expression as a group by key
 		group->expr = as->l;
 
-- 
2.43.0


From e9961ce2870155f7345816ff6c265d4cda1f97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:28 +0000
Subject: [PATCH 128/142] fix: subqueries in an expression used as a target

---
 amelie/compiler/parser/parse_expr.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amelie/compiler/parser/parse_expr.c b/amelie/compiler/parser/parse_expr.c
index e784689..5d2bb6f 100644
--- a/amelie/compiler/parser/parse_expr.c
+++ b/amelie/compiler/parser/parse_expr.c
@@ -631,7 +631,6 @@ expr_value(Stmt* self, Expr* expr, Ast* value)
 		auto select = stmt_expect(self, KSELECT);
 		if (!expr || !expr->select)
 			stmt_error(self, select, "unexpected subquery");
-		assert(expr->from);
 		value->r = &parse_select(self, expr->from, true)->ast;
 		stmt_expect(self, ')');
 		break;
@@ -673,7 +672,6 @@ expr_value(Stmt* self, Expr* expr, Ast* value)
 	{
 		if (!expr || !expr->select)
 			stmt_error(self, value, "unexpected subquery");
-		assert(expr->from);
 		auto select = parse_select(self, expr->from, true);
 		select->ast.pos_start = value->pos_start;
 		select->ast.pos_end   = value->pos_end;
-- 
2.43.0


From d21760ea35909c22a0be3be89e4d99f94ceea851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:39 +0000
Subject: [PATCH 129/142] fix: numbers too small for a normal double in JSON

---
 amelie/runtime/json/json_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 2592ba0..025a10c 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -184,7 +184,8 @@ read_as_double:;
 	errno = 0;
 	char* end = NULL;
 	*real = strtod(number, &end);
-	if (errno == ERANGE || end == number)
+	// a number which is too small is rounded
+	if ((errno == ERANGE && isinf(*real)) || end == number)
 		error("bad JSON float number");
 	self->pos = start + (end - number);
 	if (minus)
-- 
2.43.0


From 731d54c692766aa943a1e186367054f961b13fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:13 +0000
Subject: [PATCH 130/142] fix: skip of replayed DDL commands

---
 amelie/db/transaction/record.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index c23bef4..f7e92e4 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -56,9 +56,8 @@ record_data(Record* self)
 static inline void
 record_cmd_skip(RecordCmd* self, uint8_t** pos)
 {
-	auto end = *pos + self->size;
-	while (*pos < end)
-		*pos += row_size((Row*)*pos);
+	// rows or a ddl operation
+	*pos += self->size;
 }
 
 static inline bool
-- 
2.43.0


From ed9c608f66e0c0e78ad08d3108c30d2f46f53c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:48 +0000
Subject: [PATCH 131/142] fix: argument of interval_trunc

---
 amelie/vm/func/fn_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/vm/func/fn_time.c b/amelie/vm/func/fn_time.c
index 9fedfd5..ae65642 100644
--- a/amelie/vm/func/fn_time.c
+++ b/amelie/vm/func/fn_time.c
@@ -179,7 +179,7 @@ fn_interval_trunc(Fn* self)
 	}
 	if (argv[0].type == TYPE_STRING)
 	{
-		fn_expect_arg(self, 2, TYPE_INTERVAL);
+		fn_expect_arg(self, 1, TYPE_INTERVAL);
 		Interval iv = argv[1].interval;
 		interval_trunc(&iv, &argv[0].string);
 		value_set_interval(self->result, &iv);
-- 
2.43.0


From 82858d5b1804737130ca9a6fc9bcbc8d088a4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:15 +0000
Subject: [PATCH 132/142] fix: division of the smallest integer by -1

---
 amelie/vm/func/fn_math.c | 4 +++-
 amelie/vm/vm/vm.c        | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index 30648cb..16e1eab 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -124,7 +124,9 @@ fn_mod(Fn* self)
 	fn_expect_arg(self, 1, TYPE_INT);
 	if (argv[1].integer == 0)
 		fn_error_arg(self, 1, "zero division");
-	int64_t result = argv[0].integer % argv[1].integer;
+	int64_t result = 0;
+	if (argv[1].integer != -1)
+		result = argv[0].integer % argv[1].integer;
 	value_set_int(self->result, result);
 }
 
diff --git a/amelie/vm/vm/vm.c b/amelie/vm/vm/vm.c
index b761b3f..ca9baa9 100644
--- a/amelie/vm/vm/vm.c
+++ b/amelie/vm/vm/vm.c
@@ -1279,6 +1279,8 @@ cdivii:
 	{
 		if (unlikely(r[op->c].integer == 0))
 			error("zero division");
+		if (unlikely(r[op->b].integer == INT64_MIN && r[op->c].integer == -1))
+			error("int / int overflow");
 		value_set_int(&r[op->a], r[op->b].integer / r[op->c].integer);
 	}
 	op_next;
@@ -1322,7 +1324,10 @@ cmodii:
 	{
 		if (unlikely(r[op->c].integer == 0))
 			error("zero division");
-		value_set_int(&r[op->a], r[op->b].integer % r[op->c].integer);
+		if (unlikely(r[op->c].integer == -1))
+			value_set_int(&r[op->a], 0);
+		else
+			value_set_int(&r[op->a], r[op->b].integer % r[op->c].integer);
 	}
 	op_next;
 
-- 
2.43.0


From d0891eeca7f9710541042ecc112ce86160723c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:15 +0000
Subject: [PATCH 133/142] fix: substr of negative positions and counts

---
 amelie/vm/func/fn_string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amelie/vm/func/fn_string.c b/amelie/vm/func/fn_string.c
index 257c5e2..2c5f939 100644
--- a/amelie/vm/func/fn_string.c
+++ b/amelie/vm/func/fn_string.c
@@ -200,7 +200,7 @@ fn_substr(Fn* self)
 	auto pos = argv[1].integer;
 
 	// position starts from 1
-	if (pos == 0)
+	if (pos <= 0)
 		fn_error_arg(self, 1, "position is out of bounds");
 	pos--;
 
@@ -213,9 +213,9 @@ fn_substr(Fn* self)
 	if (self->argc == 3)
 	{
 		fn_expect_arg(self, 2, TYPE_INT);
-		count = argv[2].integer;
-		if ((pos + count) > size)
+		if (argv[2].integer < 0 || argv[2].integer > count)
 			fn_error_arg(self, 2, "position is out of bounds");
+		count = argv[2].integer;
 	}
 
 	Str result;
-- 
2.43.0


From a92af4479a4e67800467ceef8b657a1c90e776d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:33 +0000
Subject: [PATCH 134/142] fix: regular expressions of more than one pattern

---
 amelie/vm/func/fn_regexp.c | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/amelie/vm/func/fn_regexp.c b/amelie/vm/func/fn_regexp.c
index 85259d2..ad35928 100644
--- a/amelie/vm/func/fn_regexp.c
+++ b/amelie/vm/func/fn_regexp.c
@@ -23,24 +23,46 @@
 #define PCRE2_CODE_UNIT_WIDTH 8
 #include <pcre2.h>
 
+typedef struct RegexpContext RegexpContext;
+
+struct RegexpContext
+{
+	pcre2_code* re;
+	Str         pattern;
+};
+
 static inline pcre2_code*
 fn_regexp_init(Fn* self, Str* pattern)
 {
-	pcre2_code* re = *self->context;
-	if (re)
-		return re;
+	// reuse the last compiled pattern
+	RegexpContext* context = *self->context;
+	if (context && str_compare(&context->pattern, pattern))
+		return context->re;
+
 	int        error_number = 0;
 	PCRE2_SIZE error_offset = 0;
-	re = pcre2_compile((PCRE2_SPTR)str_of(pattern), str_size(pattern), PCRE2_UTF,
-	                   &error_number,
-	                   &error_offset, NULL);
+	auto re = pcre2_compile((PCRE2_SPTR)str_of(pattern), str_size(pattern), PCRE2_UTF,
+	                        &error_number,
+	                        &error_offset, NULL);
 	if (! re)
 	{
 		PCRE2_UCHAR msg[256];
 		pcre2_get_error_message(error_number, msg, sizeof(msg));
 		fn_error(self, "regexp: %s", msg);
 	}
-	*self->context = re;
+
+	if (context)
+	{
+		pcre2_code_free(context->re);
+		str_free(&context->pattern);
+	} else
+	{
+		context = am_malloc(sizeof(RegexpContext));
+		*self->context = context;
+	}
+	context->re = re;
+	str_init(&context->pattern);
+	str_copy(&context->pattern, pattern);
 	return re;
 }
 
@@ -49,8 +71,10 @@ fn_regexp_cleanup(Fn* self)
 {
 	if (self->action != FN_CLEANUP)
 		return false;
-	pcre2_code* re = *self->context;
-	pcre2_code_free(re);
+	RegexpContext* context = *self->context;
+	pcre2_code_free(context->re);
+	str_free(&context->pattern);
+	am_free(context);
 	*self->context = NULL;
 	return true;
 }
-- 
2.43.0


From 7c87e7f89cd6595068ba21e4960cc404f888d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:33 +0000
Subject: [PATCH 135/142] fix: invalid replacement of regexp_replace

---
 amelie/vm/func/fn_regexp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amelie/vm/func/fn_regexp.c b/amelie/vm/func/fn_regexp.c
index ad35928..110e2a8 100644
--- a/amelie/vm/func/fn_regexp.c
+++ b/amelie/vm/func/fn_regexp.c
@@ -235,6 +235,7 @@ fn_regexp_replace(Fn* self)
 	auto replace = &argv[2].string;
 
 	auto buf = buf_create();
+	errdefer_buf(buf);
 	buf_reserve(buf, str_size(string) + str_size(string) / 3);
 	for (;;)
 	{
@@ -253,6 +254,12 @@ fn_regexp_replace(Fn* self)
 			buf_reserve(buf, outlen);
 			continue;
 		}
+		if (rc < 0)
+		{
+			PCRE2_UCHAR msg[256];
+			pcre2_get_error_message(rc, msg, sizeof(msg));
+			fn_error(self, "regexp: %s", msg);
+		}
 
 		buf_advance(buf, outlen);
 		break;
-- 
2.43.0


From ac2caa65fb016439a85da81e1a1512128de9a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:05 +0000
Subject: [PATCH 136/142] fix: positions of put and remove above 32 bits

---
 amelie/vm/value/json_array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/vm/value/json_array.h b/amelie/vm/value/json_array.h
index c34ea8d..90c82cd 100644
--- a/amelie/vm/value/json_array.h
+++ b/amelie/vm/value/json_array.h
@@ -85,7 +85,7 @@ value_array_pop_back(Value* result, uint8_t* json)
 static inline void
 value_array_put(Value*   result, Timezone* tz,
                 uint8_t* json,
-                int      idx,
+                int64_t  idx,
                 Value*   value)
 {
 	json_read_array(&json);
@@ -109,14 +109,14 @@ value_array_put(Value*   result, Timezone* tz,
 
 	// extend by one
 	if (idx < 0 || idx >= i)
-		error("put: array index %d is out of bounds", idx);
+		error("put: array index %" PRIi64 " is out of bounds", idx);
 	encode_array_end(buf);
 
 	value_set_json_buf(result, buf);
 }
 
 static inline void
-value_array_remove(Value* result, uint8_t* json, int idx)
+value_array_remove(Value* result, uint8_t* json, int64_t idx)
 {
 	json_read_array(&json);
 
@@ -134,7 +134,7 @@ value_array_remove(Value* result, uint8_t* json, int idx)
 		i++;
 	}
 	if (idx < 0 || idx >= i)
-		error("remove: array index %d is out of bounds", idx);
+		error("remove: array index %" PRIi64 " is out of bounds", idx);
 	encode_array_end(buf);
 
 	value_set_json_buf(result, buf);
-- 
2.43.0


From 90ae746e3eefc4ce9761d457c6200e9ec9b4227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:05 +0000
Subject: [PATCH 137/142] fix: negation of the smallest integer

---
 amelie/vm/func/fn_math.c | 2 ++
 amelie/vm/vm/vm.c        | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index 16e1eab..6efac6f 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -31,6 +31,8 @@ fn_abs(Fn* self)
 		return;
 	}
 	fn_expect_arg(self, 0, TYPE_INT);
+	if (arg->integer == INT64_MIN)
+		fn_error_arg(self, 0, "int overflow");
 	value_set_int(self->result, llabs(arg->integer));
 }
 
diff --git a/amelie/vm/vm/vm.c b/amelie/vm/vm/vm.c
index ca9baa9..50c1983 100644
--- a/amelie/vm/vm/vm.c
+++ b/amelie/vm/vm/vm.c
@@ -1334,7 +1334,11 @@ cmodii:
 // neg
 cnegi:
 	if (likely(value_nullu_fast(&r[op->a], &r[op->b])))
+	{
+		if (unlikely(r[op->b].integer == INT64_MIN))
+			error("int overflow");
 		value_set_int(&r[op->a], -r[op->b].integer);
+	}
 	op_next;
 
 cnegf:
-- 
2.43.0


From a933463dfdab06a1ae33a596d4b972a5657834c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:21 +0000
Subject: [PATCH 138/142] fix: fmod by a negative zero

---
 amelie/vm/func/fn_math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index 6efac6f..f90d9e7 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -139,7 +139,7 @@ fn_fmod(Fn* self)
 	fn_expect(self, 2);
 	fn_expect_arg(self, 0, TYPE_DOUBLE);
 	fn_expect_arg(self, 1, TYPE_DOUBLE);
-	if (argv[1].integer == 0)
+	if (argv[1].dbl == 0.0)
 		fn_error_arg(self, 1, "zero division");
 	double result = fmod(argv[0].dbl, argv[1].dbl);
 	value_set_double(self->result, result);
-- 
2.43.0


From 100f5dcf775f9885c42f82acb0cff7fe73db9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:16 +0000
Subject: [PATCH 139/142] fix: reset function contexts while the program is
 available

---
 amelie/system/backend/pod.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index 6d2ff57..0653032 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -153,6 +153,10 @@ pod_run(Pod* self, Ltr* ltr)
 			if (! ltr->error)
 				ltr->error = req->error;
 		}
+
+		// the program is not available after the completion
+		vm_reset(&self->vm);
+
 		active = !req->dispatch->close;
 		dispatch_complete(req->dispatch);
 	}
-- 
2.43.0


From 779b8674593ccdc99eb29bcde473b84d770d3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:08 +0000
Subject: [PATCH 140/142] fix: pow of large integers

---
 amelie/vm/func/fn_math.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index f90d9e7..a39e611 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -152,11 +152,32 @@ fn_pow(Fn* self)
 	fn_expect(self, 2);
 	fn_expect_arg(self, 0, TYPE_INT);
 	fn_expect_arg(self, 1, TYPE_INT);
-	errno = 0;
-	double result = pow(argv[0].integer, argv[1].integer);
-	if (errno != 0)
-		fn_error(self, "operation failed");
-	value_set_int(self->result, (int64_t)result);
+	int64_t base   = argv[0].integer;
+	int64_t exp    = argv[1].integer;
+	int64_t result = 1;
+	if (exp < 0)
+	{
+		// 1 / base^exp
+		if (base == 0)
+			fn_error(self, "operation failed");
+		if (base == 1 || base == -1)
+			result = (exp & 1)? base: 1;
+		else
+			result = 0;
+	} else
+	{
+		for (;;)
+		{
+			if ((exp & 1) && __builtin_mul_overflow(result, base, &result))
+				fn_error(self, "int overflow");
+			exp >>= 1;
+			if (! exp)
+				break;
+			if (__builtin_mul_overflow(base, base, &base))
+				fn_error(self, "int overflow");
+		}
+	}
+	value_set_int(self->result, result);
 }
 
 static void
-- 
2.43.0


From 49a907b9d8a6c9a6819948e983d2474fbab9aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:08 +0000
Subject: [PATCH 141/142] fix: conversion of large doubles to integers

---
 amelie/vm/func/fn_cast.c | 3 +++
 amelie/vm/func/fn_math.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/amelie/vm/func/fn_cast.c b/amelie/vm/func/fn_cast.c
index ea558ef..ad44810 100644
--- a/amelie/vm/func/fn_cast.c
+++ b/amelie/vm/func/fn_cast.c
@@ -44,6 +44,9 @@ fn_int(Fn* self)
 	int64_t value = 0;
 	switch (arg->type) {
 	case TYPE_DOUBLE:
+		if (unlikely(! (arg->dbl >= -9223372036854775808.0 &&
+		                arg->dbl <   9223372036854775808.0)))
+			fn_error_arg(self, 0, "int overflow");
 		value = arg->dbl;
 		break;
 	case TYPE_BOOL:
diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index a39e611..a0df47f 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -56,6 +56,9 @@ fn_round(Fn* self)
 	auto arg = &self->argv[0];
 	fn_expect(self, 1);
 	fn_expect_arg(self, 0, TYPE_DOUBLE);
+	if (unlikely(! (arg->dbl >= -9223372036854775808.0 &&
+	                arg->dbl <   9223372036854775808.0)))
+		fn_error_arg(self, 0, "int overflow");
 	value_set_int(self->result, llround(arg->dbl));
 }
 
-- 
2.43.0


From c0e76f10b94c430727cf83777fac13209bd2d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:08 +0000
Subject: [PATCH 142/142] fix: positions of JSON arrays above 32 bits

---
 amelie/runtime/json/json_op.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/json_op.h b/amelie/runtime/json/json_op.h
index 314c3d5..717cdcc 100644
--- a/amelie/runtime/json/json_op.h
+++ b/amelie/runtime/json/json_op.h
@@ -141,12 +141,12 @@ json_obj_size(uint8_t* pos)
 }
 
 hot static inline bool
-json_array_find(uint8_t** pos, int position)
+json_array_find(uint8_t** pos, int64_t position)
 {
 	if (unlikely(json_is_null(*pos)))
 		return false;
 	json_read_array(pos);
-	int i = 0;
+	int64_t i = 0;
 	while (! json_read_array_end(pos))
 	{
 		if (i == position)
-- 
2.43.0

