From c61f55ae96c4f15eb461e15d51df8ae3053e404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 01/47] fix: decoder: refuse variable length integers that do
 not fit in 64 bits

---
 src/pomp_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..f3da42c 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -163,6 +163,12 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
+
+		/* Value shall fit in 64 bits */
+		if (shift > 63 || (shift == 63 && (b & 0x7e) != 0)) {
+			POMP_LOGW("decoder : varint too long");
+			return -EINVAL;
+		}
 		*v |= (((uint64_t)(b & 0x7f)) << shift);
 		shift += 7;
 	} while (b & 0x80);
-- 
2.43.0


From c51bea435fd99e50a5c51a260a0b4ed69bdaeea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 02/47] fix: decoder: do not truncate string and buffer sizes
 that are too big

---
 src/pomp_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index f3da42c..7d13d69 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -187,6 +187,10 @@ static int decoder_read_size_u16(struct pomp_decoder *dec, uint16_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT16_MAX) {
+		POMP_LOGW("decoder : size too big");
+		res = -EINVAL;
+	}
 	*n = (uint16_t)d;
 	return res;
 }
@@ -202,6 +206,10 @@ static int decoder_read_size_u32(struct pomp_decoder *dec, uint32_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : size too big");
+		res = -EINVAL;
+	}
 	*n = (uint32_t)d;
 	return res;
 }
-- 
2.43.0


From 73c73302cd077360fef78fd91c0da6e3e225bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 03/47] fix: decoder: refuse 32-bit integers that do not fit in
 32 bits

---
 src/pomp_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 7d13d69..1453921 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -915,6 +915,10 @@ int pomp_decoder_read_i32(struct pomp_decoder *dec, int32_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
 	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_I32, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : value does not fit in 32 bits");
+		res = -EINVAL;
+	}
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*v = ((int32_t)(d >> 1)) ^ -((int32_t)(d & 0x1));
 	return res;
@@ -931,6 +935,10 @@ int pomp_decoder_read_u32(struct pomp_decoder *dec, uint32_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
 	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_U32, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : value does not fit in 32 bits");
+		res = -EINVAL;
+	}
 	*v = (uint32_t)d;
 	return res;
 }
-- 
2.43.0


From d2a9425b2166eb7ed31ed7632410ffb6b96ed329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 04/47] fix: decoder: count the quotes of strings when growing
 the dump

---
 src/pomp_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 1453921..c5bf1ea 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -607,7 +607,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 		break;
 
 	case POMP_PROT_DATA_TYPE_STR:
-		res = dump_append(ctx, 6 + (uint32_t)strlen(v->cstr),
+		res = dump_append(ctx, 8 + (uint32_t)strlen(v->cstr),
 				", STR:'%s'", v->cstr);
 		break;
 
-- 
2.43.0


From 6f3f431eabc88151926f1f056bfa275c5b163015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 05/47] fix: encoder: check the hexadecimal text of buffer
 arguments

---
 src/pomp_encoder.c | 55 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index ee87eef..da9e4ce 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -205,23 +205,48 @@ static int encoder_write_size_u32(struct pomp_encoder *enc, uint32_t n)
 	strtod(_nptr, _endptr)
 
 /**
- * Internal write
+ * Get the value of an hexadecimal digit.
+ * @param c : digit.
+ * @return value of digit or -EINVAL if it is not an hexadecimal digit.
+ */
+static int parse_hex_digit(char c)
+{
+	if (c >= '0' && c <= '9')
+		return c - '0';
+	if (c >= 'a' && c <= 'f')
+		return c - 'a' + 10;
+	if (c >= 'A' && c <= 'F')
+		return c - 'A' + 10;
+	return -EINVAL;
+}
+
+/**
+ * Decode the hexadecimal string describing a buffer.
  * @param decodepos : string to decode.
- * @param len : len in bytes of the resulting string.
+ * @param len : len in bytes of the resulting buffer.
  * @param out : allocated output buffer.
+ * @return 0 in case of success, negative errno value in case of error.
  */
 static int parse_buffer_argv(const char *decodepos, uint32_t len, void *out)
 {
 	uint32_t i = 0;
-	/* first byte should be padded with 0 if len is odd */
-	if (strlen(decodepos) % 2 == 1)
-		sscanf(decodepos, "%hhx", &(((uint8_t *)out)[0]));
-	else
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[0]));
-	decodepos += 2;
-	for (i = 1; i < len; i++) {
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[i]));
-		decodepos += 2;
+	int hi = 0, lo = 0;
+	size_t n = strlen(decodepos);
+
+	if ((n + 1) / 2 < len) {
+		POMP_LOGW("encoder : buffer string too short");
+		return -EINVAL;
+	}
+
+	for (i = 0; i < len; i++) {
+		/* first byte should be padded with 0 if len is odd */
+		hi = (i == 0 && n % 2 == 1) ? 0 : parse_hex_digit(*decodepos++);
+		lo = (hi < 0) ? hi : parse_hex_digit(*decodepos++);
+		if (lo < 0) {
+			POMP_LOGW("encoder : invalid buffer string");
+			return -EINVAL;
+		}
+		((uint8_t *)out)[i] = (uint8_t)(hi << 4 | lo);
 	}
 	return 0;
 }
@@ -390,9 +415,11 @@ again:
 					}
 					decodepos = argv[argbufferpos];
 					/* codecheck_ignore[LONG_LINE] */
-					parse_buffer_argv(decodepos, len, v.buf);
-					/* codecheck_ignore[LONG_LINE] */
-					res = pomp_encoder_write_buf(enc, v.buf, len);
+					res = parse_buffer_argv(decodepos, len, v.buf);
+					if (res == 0) {
+						/* codecheck_ignore[LONG_LINE] */
+						res = pomp_encoder_write_buf(enc, v.buf, len);
+					}
 					free(v.buf);
 				}
 			} else if (*fmt++ != '%' || *fmt++ != 'u') {
-- 
2.43.0


From c1d4d6557aea51df5fd99050c956294c0ac180df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 06/47] fix: encoder: refuse a missing buffer text instead of
 dereferencing it

---
 src/pomp_encoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index da9e4ce..91b5b58 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -402,6 +402,10 @@ again:
 				} else {
 					int argbufferpos = argidx;
 					const char *decodepos;
+					if (argidx >= argc || argv[argidx] == NULL) {
+						POMP_LOGW("Missing buf argument");
+						return -EINVAL;
+					}
 					/*go to next argument to get size*/
 					argidx++;
 					/* codecheck_ignore[LONG_LINE] */
-- 
2.43.0


From a6c5f023b8391029afad402a36e9dd9e3acf0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 07/47] fix: encoder: refuse a format without its text
 arguments

---
 src/pomp_encoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index 91b5b58..4c77e62 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -528,8 +528,8 @@ int pomp_encoder_writev(struct pomp_encoder *enc, const char *fmt, va_list args)
 int pomp_encoder_write_argv(struct pomp_encoder *enc,
 		const char *fmt, int argc, const char * const *argv)
 {
-	/* Nothing to do if no arguments */
-	if (argc == 0)
+	/* Nothing to do if no arguments are expected */
+	if (argc == 0 && (fmt == NULL || *fmt == '\0'))
 		return 0;
 
 	/* make sure array is not NULL if some args are present */
-- 
2.43.0


From 2ae7df2deb148e2823c6e16c1aaea87de253d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 08/47] fix: prot: do not lose a message that follows the start
 of a bad magic

---
 src/pomp_prot.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..03c2ea9 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -120,6 +120,13 @@ static void pomp_prot_check_magic(struct pomp_prot *prot, int idx, int val,
 		POMP_LOGW("Bad header magic %d : 0x%02x(0x%02x)",
 			idx, prot->headerbuf[idx], val);
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+
+		/* The bad byte can still be the start of the next header */
+		if (prot->headerbuf[idx] == POMP_PROT_HEADER_MAGIC_0) {
+			prot->headerbuf[0] = POMP_PROT_HEADER_MAGIC_0;
+			prot->offheader = 1;
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_1;
+		}
 	} else {
 		prot->state = state;
 	}
-- 
2.43.0


From f7396091e675978483419e39c3186adce10cb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 09/47] fix: prot: recover after a message that could not be
 allocated

---
 src/pomp_prot.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 03c2ea9..8f5b93a 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -101,9 +101,13 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 
 	/* Initialize message, setup buffer inside message */
 	res = pomp_msg_init(prot->msg, msgid);
+	if (res == 0)
+		res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+
+	/* In case of error, make sure the next message can be initialized */
 	if (res < 0)
-		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+		(void)pomp_msg_clear(prot->msg);
+	return res;
 }
 
 /**
-- 
2.43.0


From 32031e6346ff0ad316e30c355e10fe53e06087dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 10/47] fix: buffer: do not truncate the aligned size of big
 buffers to 32 bits

---
 src/pomp_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomp_buffer.h b/src/pomp_buffer.h
index b2d55be..e8d000f 100644
--- a/src/pomp_buffer.h
+++ b/src/pomp_buffer.h
@@ -48,7 +48,8 @@
 
 /** Align size up to next allocation step */
 #define POMP_BUFFER_ALIGN_ALLOC_SIZE(_x) \
-	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~(POMP_BUFFER_ALLOC_STEP - 1)))
+	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & \
+			(~((size_t)POMP_BUFFER_ALLOC_STEP - 1)))
 
 /** Maximum number of file descriptor that can be put in a buffer */
 #define POMP_BUFFER_MAX_FD_COUNT	4
-- 
2.43.0


From eb0a671731a0d324f826812a15c2f5f6cb107a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 11/47] fix: buffer: check for overflow of position and size

---
 src/pomp_buffer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 028e537..811fd57 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -397,6 +397,8 @@ int pomp_buffer_ensure_capacity(struct pomp_buffer *buf, size_t capacity)
 
 	/* Resize internal data if needed */
 	if (capacity > buf->capacity) {
+		if (capacity > SIZE_MAX - POMP_BUFFER_ALLOC_STEP)
+			return -ENOMEM;
 		capacity = POMP_BUFFER_ALIGN_ALLOC_SIZE(capacity);
 		return pomp_buffer_set_capacity(buf, capacity);
 	}
@@ -415,6 +417,7 @@ int pomp_buffer_write(struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(pos != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
+	POMP_RETURN_ERR_IF_FAILED(n <= SIZE_MAX - *pos, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
 	res = pomp_buffer_ensure_capacity(buf, *pos + n);
@@ -499,7 +502,8 @@ int pomp_buffer_read(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len && *pos <= buf->len - n,
+			-EINVAL);
 
 	/* Copy data */
 	memcpy(p, buf->data + *pos, n);
@@ -518,7 +522,8 @@ int pomp_buffer_cread(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len && *pos <= buf->len - n,
+			-EINVAL);
 
 	/* Simply set start of data */
 	*p = buf->data + *pos;
-- 
2.43.0


From f043628981b87badf23053502cb1e9992d90e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 12/47] fix: buffer: do not keep freed data when setting a null
 capacity

---
 src/pomp_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 811fd57..81bb763 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -294,6 +294,14 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
 	POMP_RETURN_ERR_IF_FAILED(capacity >= buf->len, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	/* Nothing to keep, realloc with a null size is not portable */
+	if (capacity == 0) {
+		free(buf->data);
+		buf->data = NULL;
+		buf->capacity = 0;
+		return 0;
+	}
+
 	/* Resize internal data */
 	data = realloc(buf->data, capacity);
 	if (data == NULL)
-- 
2.43.0


From 291851087a72dc4989fa3deb530cfc36be290f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 13/47] fix: buffer: allow to append a buffer to itself

---
 src/pomp_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 81bb763..4c0f309 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -392,6 +392,14 @@ int pomp_buffer_append_buffer(struct pomp_buffer *buf,
 	if (src_len == 0)
 		return 0;
 
+	/* Source data is moved by the allocation when appending to itself */
+	if (src == buf) {
+		res = pomp_buffer_ensure_capacity(buf, 2 * src_len);
+		if (res < 0)
+			return res;
+		src_cdata = buf->data;
+	}
+
 	return pomp_buffer_append_data(buf, src_cdata, src_len);
 }
 
-- 
2.43.0


From c5c7066646711aeb4cdffab4a3faf28643b2a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:28 +0000
Subject: [PATCH 14/47] fix: addr: do not read beyond a unix path that fills
 its field

---
 src/pomp_addr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 2008ca8..b532e5e 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -183,9 +183,13 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				-EINVAL);
 		addr_un = (const struct sockaddr_un *)addr;
 		if (addr_un->sun_path[0] == '\0')
-			snprintf(buf, buflen, "unix:@%s", addr_un->sun_path+1);
+			snprintf(buf, buflen, "unix:@%.*s",
+					(int)sizeof(addr_un->sun_path) - 1,
+					addr_un->sun_path + 1);
 		else
-			snprintf(buf, buflen, "unix:%s", addr_un->sun_path);
+			snprintf(buf, buflen, "unix:%.*s",
+					(int)sizeof(addr_un->sun_path),
+					addr_un->sun_path);
 		break;
 
 	default:
-- 
2.43.0


From 1bbda1cc2b77d09160f90c72fab809ee284378b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:48 +0000
Subject: [PATCH 15/47] fix: addr: refuse numeric ports that do not fit in 16
 bits

---
 src/pomp_addr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index b532e5e..21b4d21 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -47,7 +47,8 @@ static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
 {
 	int res = -EINVAL;
 	struct addrinfo hints;
-	char *ip = NULL, *sep = NULL;
+	char *ip = NULL, *sep = NULL, *end = NULL;
+	long port = 0;
 	struct addrinfo *ai = NULL;
 
 	/* Setup hints for getaddrinfo */
@@ -68,6 +69,11 @@ static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
 		goto out;
 	*sep = '\0';
 
+	/* A numeric port that does not fit would be truncated by getaddrinfo */
+	port = strtol(sep + 1, &end, 10);
+	if (end != sep + 1 && *end == '\0' && (port < 0 || port > UINT16_MAX))
+		goto out;
+
 	/* Convert address and port
 	 * WIN32 returns positive value for errors */
 	res = getaddrinfo(ip, sep + 1, &hints, &ai);
-- 
2.43.0


From 9d1bd897382d5416a2f2d0441e825f964fd76005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 16/47] fix: loop: make the wakeup of the poll implementation
 non-blocking

The pipe was blocking and not close-on-exec, a wakeup blocked once the pipe
was full and each wakeup caused one more iteration of the loop.
---
 src/pomp_loop_posix.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index dda5fae..acbc6a4 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -84,14 +84,14 @@ static int16_t fd_events_to_poll(uint32_t events)
  */
 static void pomp_loop_poll_wakeup_cb(struct pomp_loop *loop)
 {
-	/* Read from notification pipe */
+	/* Read everything from notification pipe */
 	ssize_t res = 0;
-	uint8_t dummy = 0;
+	uint8_t dummy[64];
 	do {
-		res = read(loop->wakeup.pipefds[0], &dummy, sizeof(dummy));
-	} while (res < 0 && errno == EINTR);
+		res = read(loop->wakeup.pipefds[0], dummy, sizeof(dummy));
+	} while (res > 0 || (res < 0 && errno == EINTR));
 
-	if (res < 0)
+	if (res < 0 && errno != EAGAIN)
 		POMP_LOG_FD_ERRNO("read", loop->wakeup.pipefds[0]);
 }
 
@@ -112,8 +112,30 @@ static int pomp_loop_poll_do_new(struct pomp_loop *loop)
 	if (pipe(loop->wakeup.pipefds) < 0) {
 		res = -errno;
 		POMP_LOG_ERRNO("pipe");
+		goto error;
+	}
+
+	/* Setup fd flags, a wakeup shall never block */
+	res = fd_setup_flags(loop->wakeup.pipefds[0]);
+	if (res < 0)
+		goto error;
+	res = fd_setup_flags(loop->wakeup.pipefds[1]);
+	if (res < 0)
+		goto error;
+
+	return 0;
+
+	/* Cleanup in case of error */
+error:
+	if (loop->wakeup.pipefds[0] >= 0) {
+		close(loop->wakeup.pipefds[0]);
+		loop->wakeup.pipefds[0] = -1;
 	}
 
+	if (loop->wakeup.pipefds[1] >= 0) {
+		close(loop->wakeup.pipefds[1]);
+		loop->wakeup.pipefds[1] = -1;
+	}
 	return res;
 }
 
@@ -273,6 +295,9 @@ static int pomp_loop_poll_do_wakeup(struct pomp_loop *loop)
 	} while (res < 0 && errno == EINTR);
 
 	if (res < 0) {
+		/* Pipe full, the loop is already going to wake up */
+		if (errno == EAGAIN)
+			return 0;
 		res = -errno;
 		POMP_LOG_FD_ERRNO("write", loop->wakeup.pipefds[1]);
 	} else {
-- 
2.43.0


From 6e70088b4a10672658ae301274a9cab0b32f0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 17/47] fix: timer: always delete the kernel timer of the posix
 implementation

0 is a valid timer id, it was never deleted and its signal handler used the
structure after it was freed.
---
 src/pomp_timer.h       | 1 +
 src/pomp_timer_posix.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomp_timer.h b/src/pomp_timer.h
index 1622336..bd8e838 100644
--- a/src/pomp_timer.h
+++ b/src/pomp_timer.h
@@ -43,6 +43,7 @@ struct pomp_timer {
 
 #ifdef POMP_HAVE_TIMER_POSIX
 	timer_t			id;		/**< Timer id */
+	int			created;	/**< 1 if timer id is valid */
 	int			pipefds[2];	/**< Notification pipes */
 #endif /* POMP_HAVE_TIMER_POSIX */
 
diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 2147548..61ce9de 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -92,7 +92,7 @@ static int pomp_timer_posix_destroy(struct pomp_timer *timer)
 	/* Free resources */
 	/* from 'timer_delete' man page : The treatment of any pending signal
 	 * generated by the deleted timer is unspecified */
-	if (timer->id != 0)
+	if (timer->created)
 		timer_delete(timer->id);
 	if (timer->pipefds[0] >= 0) {
 		pomp_loop_remove(timer->loop, timer->pipefds[0]);
@@ -137,6 +137,7 @@ static struct pomp_timer *pomp_timer_posix_new(struct pomp_loop *loop,
 		POMP_LOG_ERRNO("timer_create");
 		goto error;
 	}
+	timer->created = 1;
 
 	/* Create pipe for notification */
 	res = pipe(timer->pipefds);
-- 
2.43.0


From 6167527e2e08be8d94c671f4112136559662c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 18/47] fix: timer: ignore notifications of a previous setting
 in the posix implementation

A notification of the kernel timer written in the pipe before the timer was
cleared or set again was still delivered as if it belonged to the new setting
(too early, or for a timer that is no more armed).
---
 src/pomp_timer.h       |  2 ++
 src/pomp_timer_posix.c | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/pomp_timer.h b/src/pomp_timer.h
index bd8e838..ad59d43 100644
--- a/src/pomp_timer.h
+++ b/src/pomp_timer.h
@@ -45,6 +45,8 @@ struct pomp_timer {
 	timer_t			id;		/**< Timer id */
 	int			created;	/**< 1 if timer id is valid */
 	int			pipefds[2];	/**< Notification pipes */
+	uint64_t		due;		/**< Next expiration (in ns) */
+	uint64_t		period;		/**< Period (in ns) */
 #endif /* POMP_HAVE_TIMER_POSIX */
 
 #ifdef POMP_HAVE_TIMER_FD
diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 61ce9de..44696d6 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -61,6 +61,17 @@ static void pomp_timer_posix_sighandler(int signo, siginfo_t *si, void *unused)
 	} while (res < 0 && errno == EINTR);
 }
 
+/**
+ * Get current time.
+ * @return current monotonic time in ns.
+ */
+static uint64_t pomp_timer_posix_now(void)
+{
+	struct timespec ts = {0, 0};
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	return (uint64_t)ts.tv_sec * 1000 * 1000 * 1000 + (uint64_t)ts.tv_nsec;
+}
+
 /**
  * Function called when the read notification pipe fd is ready for events.
  * @param fd : triggered fd.
@@ -71,12 +82,26 @@ static void pomp_timer_posix_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_timer *timer = userdata;
 	ssize_t res = 0;
-	uint8_t dummy = 0;
+	uint8_t dummy[64];
+	uint64_t now = 0;
 
-	/* Read from notification pipe */
+	/* Read everything from notification pipe */
 	do {
-		res = read(timer->pipefds[0], &dummy, sizeof(dummy));
-	} while (res < 0 && errno == EINTR);
+		res = read(timer->pipefds[0], dummy, sizeof(dummy));
+	} while (res > 0 || (res < 0 && errno == EINTR));
+
+	/* Ignore notifications of a previous setting of the timer */
+	now = pomp_timer_posix_now();
+	if (timer->due == 0 || now < timer->due)
+		return;
+
+	/* Setup next expiration */
+	if (timer->period != 0) {
+		timer->due += ((now - timer->due) / timer->period + 1) *
+				timer->period;
+	} else {
+		timer->due = 0;
+	}
 
 	/* Notify callback */
 	(*timer->cb)(timer, timer->userdata);
@@ -187,6 +212,7 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 		uint32_t period)
 {
 	int res = 0;
+	uint64_t due = 0;
 	struct itimerspec newval, oldval;
 	POMP_RETURN_ERR_IF_FAILED(timer != NULL, -EINVAL);
 
@@ -195,9 +221,13 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 	newval.it_interval.tv_nsec = (long int)((period % 1000) * 1000 * 1000);
 	newval.it_value.tv_sec = (time_t)(delay / 1000);
 	newval.it_value.tv_nsec = (long int)((delay % 1000) * 1000 * 1000);
+	due = pomp_timer_posix_now() + (uint64_t)delay * 1000 * 1000;
 	if (timer_settime(timer->id, 0, &newval, &oldval) < 0) {
 		res = -errno;
 		POMP_LOG_ERRNO("timer_settime");
+	} else {
+		timer->due = delay == 0 ? 0 : due;
+		timer->period = (uint64_t)period * 1000 * 1000;
 	}
 
 	return res;
-- 
2.43.0


From 6a592351266b87c6e7749c877c4b4827771e8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 19/47] fix: evt: do not notify an event cleared since the loop
 found it signaled

When an event is cleared by another callback of the same processing round, its
callback was still called although the event is not signaled anymore.
---
 src/pomp_evt_linux.c | 29 +++++++++++++++++++----------
 src/pomp_evt_posix.c | 25 ++++++++++++++++++++-----
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/pomp_evt_linux.c b/src/pomp_evt_linux.c
index 5224480..45915cd 100644
--- a/src/pomp_evt_linux.c
+++ b/src/pomp_evt_linux.c
@@ -95,35 +95,44 @@ static int pomp_evt_fd_signal(struct pomp_evt *evt)
 }
 
 /**
- * @see pomp_evt_clear
+ * Clear the event, -EAGAIN is returned if it was not signaled.
  */
-static int pomp_evt_fd_clear(struct pomp_evt *evt)
+static int pomp_evt_fd_consume(struct pomp_evt *evt)
 {
 	ssize_t ret;
 	uint64_t count;
-	POMP_RETURN_ERR_IF_FAILED(evt != NULL, -EINVAL);
 
 	do {
 		ret = read(evt->efd, &count, sizeof(count));
 	} while (ret < 0 && errno == EINTR);
-	if (ret < 0) {
-		ret = -errno;
-		if (ret == -EAGAIN)
-			return 0;
-		return ret;
-	}
+	if (ret < 0)
+		return -errno;
 	if (ret != sizeof(count))
 		return -EIO;
 	return 0;
 }
 
+/**
+ * @see pomp_evt_clear
+ */
+static int pomp_evt_fd_clear(struct pomp_evt *evt)
+{
+	int res;
+	POMP_RETURN_ERR_IF_FAILED(evt != NULL, -EINVAL);
+
+	res = pomp_evt_fd_consume(evt);
+	return res == -EAGAIN ? 0 : res;
+}
+
 /**
  * Called when event is signaled
  */
 static void pomp_evt_fd_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_evt *evt = userdata;
-	pomp_evt_fd_clear(evt);
+	/* It may have been cleared since the loop found it signaled */
+	if (pomp_evt_fd_consume(evt) == -EAGAIN)
+		return;
 	(*evt->cb)(evt, evt->userdata);
 }
 
diff --git a/src/pomp_evt_posix.c b/src/pomp_evt_posix.c
index a4088c9..d489b05 100644
--- a/src/pomp_evt_posix.c
+++ b/src/pomp_evt_posix.c
@@ -108,13 +108,13 @@ static int pomp_evt_posix_signal(struct pomp_evt *evt)
 }
 
 /**
- * @see pomp_evt_clear
+ * Clear the event, -EAGAIN is returned if it was not signaled.
  */
-static int pomp_evt_posix_clear(struct pomp_evt *evt)
+static int pomp_evt_posix_consume(struct pomp_evt *evt)
 {
 	ssize_t ret;
 	uint8_t dummy[64];
-	POMP_RETURN_ERR_IF_FAILED(evt != NULL, -EINVAL);
+	int signaled = 0;
 
 	while (1) {
 		do {
@@ -122,22 +122,37 @@ static int pomp_evt_posix_clear(struct pomp_evt *evt)
 		} while (ret < 0 && errno == EINTR);
 		if (ret < 0) {
 			ret = -errno;
-			if (ret == -EAGAIN)
+			if (ret == -EAGAIN && signaled)
 				return 0;
 			return ret;
 		}
 		if ((size_t)ret < sizeof(dummy))
 			return 0;
+		signaled = 1;
 	}
 }
 
+/**
+ * @see pomp_evt_clear
+ */
+static int pomp_evt_posix_clear(struct pomp_evt *evt)
+{
+	int res;
+	POMP_RETURN_ERR_IF_FAILED(evt != NULL, -EINVAL);
+
+	res = pomp_evt_posix_consume(evt);
+	return res == -EAGAIN ? 0 : res;
+}
+
 /**
  * Called when event is signaled
  */
 static void pomp_evt_posix_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_evt *evt = userdata;
-	pomp_evt_posix_clear(evt);
+	/* It may have been cleared since the loop found it signaled */
+	if (pomp_evt_posix_consume(evt) == -EAGAIN)
+		return;
 	(*evt->cb)(evt, evt->userdata);
 }
 
-- 
2.43.0


From c704bdc98ee2196416f23eafde9245edb0ca32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 20/47] fix: conn: do not fail a send after part of it was
 written

---
 src/pomp_conn.c | 46 +++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index fabce02..80f1414 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1310,9 +1310,7 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		const struct sockaddr *addr, uint32_t addrlen)
 {
 	int res = 0;
-	size_t off = 0;
 	struct pomp_io_buffer *iobuf = NULL;
-	struct pomp_io_buffer tmpiobuf;
 
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(conn->fd >= 0, -EINVAL);
@@ -1341,46 +1339,36 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		return -EPERM;
 	}
 
+	/* Allocate the io buffer now: once some bytes have been written it is too
+	 * late to fail, the rest has to be queued */
+	iobuf = pomp_io_buffer_new(buf, 0);
+	if (iobuf == NULL)
+		return -ENOMEM;
+	if (conn->isdgram) {
+		memcpy(&iobuf->addr, addr, addrlen);
+		iobuf->addrlen = addrlen;
+	}
+
 	/* Try to send now if possible */
 	if (conn->headbuf == NULL) {
-		/* Prepare a local temp io buffer */
-		memset(&tmpiobuf, 0, sizeof(tmpiobuf));
-		tmpiobuf.buf = buf;
-		tmpiobuf.len = buf->len;
-		tmpiobuf.off = 0;
-		tmpiobuf.next = NULL;
-		if (conn->isdgram) {
-			memcpy(&tmpiobuf.addr, addr, addrlen);
-			tmpiobuf.addrlen = addrlen;
-		}
-
 		/* Write it */
-		res = pomp_io_buffer_write(&tmpiobuf, conn);
+		res = pomp_io_buffer_write(iobuf, conn);
 		if (res < 0) {
-			if (!POMP_CONN_WOULD_BLOCK(-res))
+			if (!POMP_CONN_WOULD_BLOCK(-res)) {
+				pomp_io_buffer_destroy(iobuf);
 				return res;
-		} else if (tmpiobuf.off == tmpiobuf.len) {
+			}
+		} else if (iobuf->off == iobuf->len) {
 			/* If everything was written, nothing more to do */
-			pomp_conn_add_idle_cb(conn, conn->ctx,
-					tmpiobuf.buf,
+			pomp_conn_add_idle_cb(conn, conn->ctx, iobuf->buf,
 					POMP_SEND_STATUS_OK |
 					POMP_SEND_STATUS_QUEUE_EMPTY);
+			pomp_io_buffer_destroy(iobuf);
 			return 0;
-
-		} else {
-			off = tmpiobuf.off;
 		}
 	}
 
 	/* Need to queue the buffer */
-	iobuf = pomp_io_buffer_new(buf, off);
-	if (iobuf == NULL)
-		return -ENOMEM;
-	if (conn->isdgram) {
-		memcpy(&iobuf->addr, addr, addrlen);
-		iobuf->addrlen = addrlen;
-	}
-
 	if (conn->tailbuf == NULL) {
 		/* No previous pending buffer */
 		POMP_LOGI("conn=%p fd=%d enter async mode", conn, conn->fd);
-- 
2.43.0


From 6c99ccd7f5eddd7ae18293afa12690c4a751e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 21/47] fix: ctx: do not stay started when start fails

The copy of the address was kept, so the context refused to be started
again or destroyed although it was not running.
---
 src/pomp_ctx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 6c793c7..cf7a16f 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1104,6 +1104,14 @@ static int pomp_ctx_start(struct pomp_ctx *ctx, enum pomp_ctx_type type,
 		break;
 	}
 
+	/* The context is not started in case of error (if a stop is pending, it
+	 * will do the cleanup itself) */
+	if (res < 0 && !ctx->stopping) {
+		free(ctx->addr);
+		ctx->addr = NULL;
+		ctx->addrlen = 0;
+	}
+
 	return res;
 }
 
-- 
2.43.0


From a5c6542851e006a276e6a89eb61d6ad90d1a755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:28 +0000
Subject: [PATCH 22/47] fix: ctx: retry again when an attempt made from the
 timer fails

The result of the start functions was ignored: after a transient error (lack
of memory or descriptors for instance) no other attempt was ever made.
---
 src/pomp_ctx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index cf7a16f..4c136bb 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -861,6 +861,8 @@ static int dgram_stop(struct pomp_ctx *ctx)
  */
 static void timer_cb(struct pomp_timer *timer, void *userdata)
 {
+	int res = 0;
+	uint32_t delay = 0;
 	struct pomp_ctx *ctx = userdata;
 
 	/* Clear timer */
@@ -869,17 +871,24 @@ static void timer_cb(struct pomp_timer *timer, void *userdata)
 	/* Try reconnecting the client/server */
 	switch (ctx->type) {
 	case POMP_CTX_TYPE_SERVER:
-		server_start(ctx);
+		delay = POMP_SERVER_RECONNECT_DELAY;
+		res = server_start(ctx);
 		break;
 
 	case POMP_CTX_TYPE_CLIENT:
-		client_start(ctx);
+		delay = POMP_CLIENT_RECONNECT_DELAY;
+		res = client_start(ctx);
 		break;
 
 	case POMP_CTX_TYPE_DGRAM:
-		dgram_start(ctx);
+		delay = POMP_DGRAM_RECONNECT_DELAY;
+		res = dgram_start(ctx);
 		break;
 	}
+
+	/* There is nobody to report the error to, try again later */
+	if (res < 0)
+		pomp_timer_set(ctx->timer, delay);
 }
 
 /*
-- 
2.43.0


From 74deb7bef40f28619051a44850de57284b244268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:49 +0000
Subject: [PATCH 23/47] fix: conn: do not free the read buffer while it is
 being processed

pomp_conn_set_read_buffer_len called from a message or raw data callback
released the buffer that holds the data still to be decoded.
---
 src/pomp_conn.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 80f1414..5f39e53 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -103,6 +103,9 @@ struct pomp_conn {
 	/** Read buffer len */
 	size_t readbuf_len;
 
+	/** Read buffer has to be allocated again with the new length */
+	int			readbuf_renew;
+
 	/** To chain connection structures in server context */
 	struct pomp_conn	*next;
 
@@ -731,11 +734,13 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 		return;
 
 	do {
-		/* If current read buffer is shared, unref it */
-		if (conn->readbuf != NULL && conn->readbuf->refcount > 1) {
+		/* If current read buffer is shared or shall be resized, unref it */
+		if (conn->readbuf != NULL && (conn->readbuf->refcount > 1 ||
+				conn->readbuf_renew)) {
 			pomp_buffer_unref(conn->readbuf);
 			conn->readbuf = NULL;
 		}
+		conn->readbuf_renew = 0;
 
 		/* Allocate a new read buffer if needed */
 		if (conn->readbuf == NULL)
@@ -1474,13 +1479,10 @@ int pomp_conn_set_read_buffer_len(struct pomp_conn *conn,
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len != 0, -EINVAL);
 
-	/* If current read buffer has already been allocated, unref it so that
-	 * it will be reallocated with the correct length when needed. */
-	if (conn->readbuf != NULL) {
-		pomp_buffer_unref(conn->readbuf);
-		conn->readbuf = NULL;
-	}
-
+	/* If current read buffer has already been allocated, it will be
+	 * reallocated with the correct length before the next read. It can not
+	 * be done now, it is in use if we are called from a callback. */
+	conn->readbuf_renew = 1;
 	conn->readbuf_len = len;
 	return 0;
 }
-- 
2.43.0


From 4bbc98876a354ff19ad4563746368d56825749f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 24/47] fix: ctx: protect against a stop from the socket
 callback

The stop was done synchronously, freeing the address and the sockets that
were being set up by the caller of the callback.
---
 src/pomp_ctx.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 4c136bb..63fb674 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -180,6 +180,22 @@ struct pomp_ctx {
 	} u;
 };
 
+/**
+ * Notify the creation of a socket.
+ * @param ctx : context.
+ * @param fd : socket fd.
+ * @param kind : kind of socket.
+ */
+static void pomp_ctx_notify_socket(struct pomp_ctx *ctx, int fd,
+		enum pomp_socket_kind kind)
+{
+	if (ctx->sockcb != NULL) {
+		ctx->notifying++;
+		(*ctx->sockcb)(ctx, fd, kind, ctx->userdata);
+		ctx->notifying--;
+	}
+}
+
 /**
  * Setup keep alive for inet socket fd.
  * @param ctx : context.
@@ -311,8 +327,7 @@ static int server_accept_conn(int server_fd, struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL)
-		(*ctx->sockcb)(ctx, fd, POMP_SOCKET_KIND_PEER, ctx->userdata);
+	pomp_ctx_notify_socket(ctx, fd, POMP_SOCKET_KIND_PEER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(fd);
@@ -409,10 +424,7 @@ static int server_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.server.fd,
-				POMP_SOCKET_KIND_SERVER, ctx->userdata);
-	}
+	pomp_ctx_notify_socket(ctx, ctx->u.server.fd, POMP_SOCKET_KIND_SERVER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.server.fd);
@@ -656,10 +668,7 @@ static int client_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.client.fd,
-				POMP_SOCKET_KIND_CLIENT, ctx->userdata);
-	}
+	pomp_ctx_notify_socket(ctx, ctx->u.client.fd, POMP_SOCKET_KIND_CLIENT);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.client.fd);
@@ -753,10 +762,7 @@ static int dgram_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.dgram.fd,
-				POMP_SOCKET_KIND_DGRAM, ctx->userdata);
-	}
+	pomp_ctx_notify_socket(ctx, ctx->u.dgram.fd, POMP_SOCKET_KIND_DGRAM);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.dgram.fd);
-- 
2.43.0


From 81b4595f76bebc7135541d9bbe79192476160496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 25/47] fix: ctx: do not stay in stopping state when stop fails

---
 src/pomp_ctx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 63fb674..5e38deb 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1206,6 +1206,8 @@ static void pomp_ctx_stop_idle(void *userdata)
  */
 int pomp_ctx_stop(struct pomp_ctx *ctx)
 {
+	int res = 0;
+
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
 	if (ctx->addr == NULL || ctx->stopping)
 		return 0;
@@ -1215,7 +1217,11 @@ int pomp_ctx_stop(struct pomp_ctx *ctx)
 	/* If currently notifying events/messages, do the stop in idle,
 	 * otherwise do it syncchronously */
 	if (ctx->notifying > 0) {
-		return pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		res = pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		/* Not stopped in case of error, it can be tried again */
+		if (res < 0)
+			ctx->stopping = 0;
+		return res;
 	} else {
 		pomp_ctx_stop_idle(ctx);
 		return 0;
-- 
2.43.0


From 0eb4525cf192b0f88caedebd946116c8ac9b8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 26/47] fix: conn: decode each datagram on its own

An incomplete or malformed message in a datagram corrupted the decoding of the
following datagrams, whoever sent them.
---
 src/pomp_conn.c |  5 +++++
 src/pomp_prot.c | 15 +++++++++++++++
 src/pomp_prot.h |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 5f39e53..332edce 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -508,6 +508,11 @@ static void pomp_conn_process_read_buf(struct pomp_conn *conn)
 		return;
 	}
 
+	/* Each datagram is decoded on its own, an incomplete message at the end
+	 * of the previous one will never be completed */
+	if (conn->isdgram)
+		pomp_prot_reset(conn->prot);
+
 	/* Get data from buffer */
 	data = conn->readbuf->data;
 	len = conn->readbuf->len;
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 8f5b93a..5e9c91e 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -284,6 +284,21 @@ int pomp_prot_destroy(struct pomp_prot *prot)
 	return 0;
 }
 
+/**
+ * Forget everything about a message that is not completely decoded yet.
+ * The next byte given will be considered as the start of a message.
+ * @param prot : protocol decoder.
+ * @return 0 in case of success, negative errno value in case of error.
+ */
+int pomp_prot_reset(struct pomp_prot *prot)
+{
+	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
+	if (prot->msg != NULL)
+		(void)pomp_msg_clear(prot->msg);
+	pomp_prot_reset_state(prot);
+	return 0;
+}
+
 /**
  * Try to decode a message with given input data.
  * @param prot : protocol decoder.
diff --git a/src/pomp_prot.h b/src/pomp_prot.h
index 6529a38..db193b6 100644
--- a/src/pomp_prot.h
+++ b/src/pomp_prot.h
@@ -120,6 +120,8 @@ extern "C" {
 /** Size of protocol header */
 #define POMP_PROT_HEADER_SIZE		12
 
+int pomp_prot_reset(struct pomp_prot *prot);
+
 #ifdef __cplusplus
 }
 #endif /* __cplusplus */
-- 
2.43.0


From 2ce4c9d9e0967cb01297221f0a17978ea2d7a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 27/47] fix: conn: do not close a dgram socket because a
 pending datagram can not be sent

Nothing would open it again. Only drop and report the datagram.
---
 src/pomp_conn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 332edce..a8c9c2d 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -965,19 +965,21 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 		res = pomp_io_buffer_write(iobuf, conn);
 		if (POMP_CONN_WOULD_BLOCK(-res)) {
 			break;
-		} else if (res < 0) {
+		} else if (res < 0 && !conn->isdgram) {
 			/* Error, finish this connection */
 			conn->removeflag = 1;
 			break;
 		}
 
-		/* Remove pending buffer if completed */
-		if (iobuf->off == iobuf->len) {
+		/* Remove pending buffer if completed. On dgram sockets an error
+		 * only concerns the current buffer */
+		if (res < 0 || iobuf->off == iobuf->len) {
 			conn->headbuf = iobuf->next;
 			if (conn->headbuf == NULL)
 				conn->tailbuf = NULL;
 
-			status = POMP_SEND_STATUS_OK;
+			status = res < 0 ? POMP_SEND_STATUS_ERROR :
+					POMP_SEND_STATUS_OK;
 			if (conn->headbuf == NULL)
 				status |= POMP_SEND_STATUS_QUEUE_EMPTY;
 
-- 
2.43.0


From c56cec743f34cda10f650e0a3579721ad459f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 28/47] fix: conn: do not close a dgram socket because of an
 asynchronous error

It tells that a datagram sent previously could not be delivered. Nothing would
open the socket again.
---
 src/pomp_conn.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index a8c9c2d..177c125 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1007,10 +1007,24 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 static void pomp_conn_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_conn *conn = userdata;
+	int sockerr = 0;
+	socklen_t sockerrlen = 0;
+
 	if (!conn->removeflag && (revents & POMP_FD_EVENT_IN))
 		pomp_conn_process_read(conn);
 	if (!conn->removeflag && (revents & POMP_FD_EVENT_OUT))
 		pomp_conn_process_write(conn);
+
+	/* On dgram sockets an error only tells that a datagram sent previously
+	 * could not be delivered, clear it and continue */
+	if (conn->isdgram && (revents & POMP_FD_EVENT_ERR)) {
+		sockerrlen = sizeof(sockerr);
+		if (getsockopt(conn->fd, SOL_SOCKET, SO_ERROR,
+				(void *)&sockerr, &sockerrlen) < 0)
+			POMP_LOG_FD_ERRNO("getsockopt.SO_ERROR", conn->fd);
+		revents &= ~(uint32_t)POMP_FD_EVENT_ERR;
+	}
+
 	if (conn->removeflag || (revents & POMP_FD_EVENT_ERR))
 		pomp_ctx_remove_conn(conn->ctx, conn);
 }
-- 
2.43.0


From a131aa87cb30d45f4d9ecf058df032be95c565cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 29/47] fix: conn: keep the peer address of unix connections

Reading a message or the end of the stream on a connection with an unnamed
peer, or the end of the stream with any, cleared it.
---
 src/pomp_conn.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 177c125..9584d91 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -618,8 +618,11 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 	/* Setup the data part of the socket message */
 	iov.iov_base = conn->readbuf->data;
 	iov.iov_len = conn->readbuf->capacity;
-	msg.msg_name = &conn->peer_addr;
-	msg.msg_namelen = sizeof(conn->peer_addr);
+	if (conn->isdgram) {
+		/* The peer of a connected socket is already known */
+		msg.msg_name = &conn->peer_addr;
+		msg.msg_namelen = sizeof(conn->peer_addr);
+	}
 	msg.msg_iov = &iov;
 	msg.msg_iovlen = 1;
 
@@ -640,7 +643,8 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 			POMP_LOG_FD_ERRNO("recvmsg", conn->fd);
 		return res;
 	}
-	conn->peer_addrlen = msg.msg_namelen;
+	if (conn->isdgram)
+		conn->peer_addrlen = msg.msg_namelen;
 	if (readlen == 0)
 		return 0;
 
-- 
2.43.0


From bff841f484491cd9d3354d3aa44444722c7b499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 30/47] fix: ctx: do not read beyond a unix address without
 null terminator

Its path was given to unlink and chmod.
---
 src/pomp_ctx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 5e38deb..358d81f 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1078,8 +1078,9 @@ static int pomp_ctx_start(struct pomp_ctx *ctx, enum pomp_ctx_type type,
 	POMP_RETURN_ERR_IF_FAILED(addr != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(ctx->addr == NULL, -EBUSY);
 
-	/* Copy address */
-	ctx->addr = malloc(addrlen);
+	/* Copy address, with an extra null byte: the path of a unix address is
+	 * not always null terminated within its size */
+	ctx->addr = calloc(1, (size_t)addrlen + 1);
 	if (ctx->addr == NULL)
 		return -ENOMEM;
 	ctx->addrlen = addrlen;
-- 
2.43.0


From e9d760e52a1fdaf7a193329e6eb200933844d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 31/47] fix: watchdog: always give a valid timeout to
 pthread_cond_timedwait

When the expiration fell exactly on a second the timeout had a tv_nsec of
1000000000, which is refused with EINVAL. The internal thread then spinned
without releasing the mutex, blocking the loop for ever.
---
 src/pomp_watchdog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 6c054df..7c05f12 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -54,8 +54,8 @@ static void get_absolute_timeout(uint32_t delay, struct timespec *timeout)
 
 	timeout->tv_sec += delay / 1000;
 	timeout->tv_nsec += (delay % 1000) * 1000000;
-	while (timeout->tv_nsec > 1000000000) {
-		/* over one billion nsec, add 1 sec */
+	while (timeout->tv_nsec >= 1000000000) {
+		/* one billion nsec or more, add 1 sec */
 		timeout->tv_sec++;
 		timeout->tv_nsec -= 1000000000;
 	}
-- 
2.43.0


From 68dc0e850cad3937c8c0066b6e89b353d4ee7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 32/47] fix: watchdog: do not keep the monitoring state after
 stop

When the watchdog was disabled during a processing step and enabled again
later, the timeout of the former step was still in force and the alarm was
raised while nothing was being processed, possibly before the callback was
even set.
---
 src/pomp_watchdog.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 7c05f12..9946cf9 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -138,6 +138,12 @@ int pomp_watchdog_start(struct pomp_watchdog *watchdog,
 	pthread_cond_init(&watchdog->cond, &condattr);
 	pthread_condattr_destroy(&condattr);
 
+	/* Setup everything before the internal thread can use it */
+	watchdog->loop = loop;
+	watchdog->delay = delay;
+	watchdog->cb = cb;
+	watchdog->userdata = userdata;
+
 	/* Create an internal thread */
 	res = pthread_create(&watchdog->thread, NULL,
 			&pomp_watchdog_thread_cb, watchdog);
@@ -148,11 +154,6 @@ int pomp_watchdog_start(struct pomp_watchdog *watchdog,
 	}
 	watchdog->started = 1;
 
-	watchdog->loop = loop;
-	watchdog->delay = delay;
-	watchdog->cb = cb;
-	watchdog->userdata = userdata;
-
 	return 0;
 
 	/* Cleanup in case of error */
@@ -188,6 +189,11 @@ int pomp_watchdog_stop(struct pomp_watchdog *watchdog)
 	watchdog->cb = NULL;
 	watchdog->userdata = NULL;
 
+	/* A step that was monitored shall not expire if started again */
+	watchdog->monitoring = 0;
+	watchdog->next_timeout.tv_sec = 0;
+	watchdog->next_timeout.tv_nsec = 0;
+
 	return 0;
 }
 
-- 
2.43.0


From 7426a818c0f3c55678ef99b0b787ae48485040af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 33/47] fix: python: write the correct size in the header of
 empty messages

The size was computed before the end of the header was written. A message
without arguments had a size of 8 and was refused by receivers.
---
 python/pomp/message.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/pomp/message.py b/python/pomp/message.py
index 4bea6ef..5ad5cba 100644
--- a/python/pomp/message.py
+++ b/python/pomp/message.py
@@ -50,15 +50,14 @@ class Message(object):
         self.buf = Buffer()
 
     def finish(self):
-        # Make sure position is at least after header
-        if self.buf.getPos() < protocol.HEADER_SIZE:
-            self.buf.skip(protocol.HEADER_SIZE - self.buf.getPos())
+        # The header is always there, even if there is no payload
+        size = max(len(self.buf), protocol.HEADER_SIZE)
 
         # Write header
         self.buf.rewind()
         self.buf.writeInt(protocol.POMP_MAGIC)
         self.buf.writeInt(self.msgid)
-        self.buf.writeInt(len(self.buf))
+        self.buf.writeInt(size)
 
         # Make message read-only
         self.finished = True
-- 
2.43.0


From b52b72e3ab33dd8b122792d8b654bc931e5339de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 34/47] fix: python: report truncated arguments as decode
 errors

A truncated buffer was returned as if it was complete, other arguments
raised an unrelated exception.
---
 python/pomp/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 9827977..2e2e9cd 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -250,9 +250,13 @@ class Decoder(object):
         return struct.unpack("<d", self._read(8))[0]
 
     def _read(self, count):
+        if count > len(self.msg.buf) - self.msg.buf.getPos():
+            raise DecodeException("Unexpected end of message")
         return self.msg.buf.read(count)
 
     def _readByte(self):
+        if self.msg.buf.getPos() >= len(self.msg.buf):
+            raise DecodeException("Unexpected end of message")
         return self.msg.buf.readByte()
 
     def _readType(self, datatype):
-- 
2.43.0


From 7875a184ba399d0eaabeccbcb5981c5b539d6a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 35/47] fix: python: refuse variable length integers that are
 too big

They were silently truncated to another value, the C library refuses them.
---
 python/pomp/decoder.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 2e2e9cd..b43106e 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -203,27 +203,25 @@ class Decoder(object):
 
     def readI32(self):
         self._readType(protocol.DATA_TYPE_I32)
-        zval = self._readVarint()
+        zval = self._readVarint(32)
         # Zigzag decoding, use logical right shift, without sign propagation
         val = ((zval >> 1) ^ -(zval & 0x1)) & 0xffffffff
         return val if val <= 0x7fffffff else val - 0xffffffff - 1
 
     def readU32(self):
         self._readType(protocol.DATA_TYPE_U32)
-        zval = self._readVarint()
-        return zval & 0xffffffff
+        return self._readVarint(32)
 
     def readI64(self):
         self._readType(protocol.DATA_TYPE_I64)
-        zval = self._readVarint()
+        zval = self._readVarint(64)
         # Zigzag decoding, use logical right shift, without sign propagation
         val = ((zval >> 1) ^ -(zval & 0x1)) & 0xffffffffffffffff
         return val if val <= 0x7fffffffffffffff else val - 0xffffffffffffffff - 1
 
     def readU64(self):
         self._readType(protocol.DATA_TYPE_U64)
-        zval = self._readVarint()
-        return zval & 0xffffffffffffffff
+        return self._readVarint(64)
 
     def readStr(self):
         self._readType(protocol.DATA_TYPE_STR)
@@ -264,19 +262,23 @@ class Decoder(object):
         if readtype != datatype:
             raise DecodeException("Type mismatch: %02x(%02x)" % (readtype, datatype))
 
-    def _readVarint(self):
+    def _readVarint(self, bits):
         val = 0
         shift = 0
         more = True
         while more:
+            if shift >= 64:
+                raise DecodeException("Invalid variable length integer")
             bval = self._readByte()
             val |= ((bval & 0x7f) << shift)
             shift += 7
             more = ((bval & 0x80) != 0)
+        if val >> bits != 0:
+            raise DecodeException("Integer does not fit in %d bits" % bits)
         return val
 
     def _readSizeU16(self):
-        return self._readVarint()
+        return self._readVarint(16)
 
     def _readSizeU32(self):
-        return self._readVarint()
+        return self._readVarint(32)
-- 
2.43.0


From 7251d78b0b9f0a08f93ef2c3a88a0831dbf24ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 36/47] fix: python: encode and decode strings as utf-8

This is the charset advised by the protocol description. Strings with other
characters than ascii raised unrelated exceptions, as did too long ones.
---
 python/pomp/decoder.py | 5 ++++-
 python/pomp/encoder.py | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index b43106e..5f1386d 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -232,7 +232,10 @@ class Decoder(object):
         nullb = self._readByte()
         if nullb != 0:
             raise DecodeException("String not null terminated")
-        return sval.decode("ascii")
+        try:
+            return sval.decode("utf-8")
+        except UnicodeDecodeError:
+            raise DecodeException("Invalid characters in string")
 
     def readBuf(self):
         self._readType(protocol.DATA_TYPE_BUF)
diff --git a/python/pomp/encoder.py b/python/pomp/encoder.py
index 3f4a1f1..1055b8a 100644
--- a/python/pomp/encoder.py
+++ b/python/pomp/encoder.py
@@ -195,12 +195,13 @@ class Encoder(object):
 
     def writeStr(self, sval):
         # Check length
-        if len(sval) + 1 > 0xffff:
-            raise EncodeException("Invalid string length: " + len(sval))
+        data = sval.encode("utf-8")
+        if len(data) + 1 > 0xffff:
+            raise EncodeException("Invalid string length: %d" % len(data))
         # Write type, size, data and final null
         self._writeType(protocol.DATA_TYPE_STR)
-        self._writeSizeU16(len(sval) + 1)
-        self._write(sval.encode("ascii"))
+        self._writeSizeU16(len(data) + 1)
+        self._write(data)
         self._writeByte(0)
 
     def writeBuf(self, buf):
-- 
2.43.0


From dd2c11433992f6396788adb02ecfd99f130728b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 37/47] fix: python: do not lose a message that follows the
 start of a bad magic

The byte that is not the expected one can be the start of the next header.
---
 python/pomp/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pomp/protocol.py b/python/pomp/protocol.py
index f8ed675..31e0e1e 100644
--- a/python/pomp/protocol.py
+++ b/python/pomp/protocol.py
@@ -156,6 +156,12 @@ class Protocol(object):
         if magic != val:
             _log.warning("Bad header magic %d: 0x%02x(0x%02x)", idx, magic, val)
             self.state = Protocol._STATE_HEADER_MAGIC_0
+
+            # The bad byte can still be the start of the next header
+            if magic == POMP_MAGIC_0:
+                self.headerBuf = Buffer()
+                self.headerBuf.writeByte(magic)
+                self.state = Protocol._STATE_HEADER_MAGIC_1
         else:
             self.state = state
 
-- 
2.43.0


From 682aecd1816a0c9f3a2f45a031b12110ed6fd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 38/47] fix: python: decode each datagram on its own

An incomplete message in a datagram was completed with the content of the
next ones.
---
 python/pomp/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index 986c4f5..e13b400 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -160,6 +160,8 @@ class Connection(object):
                 # Read and decode data into messages and notify them
                 if self.isDgram:
                     (buf, self.peerAddr) = self.sock.recvfrom(self._BUFSIZ)
+                    # Never mix the content of several datagrams
+                    prot = Protocol()
                 else:
                     buf = self.sock.recv(self._BUFSIZ)
                 if not buf and not self.isDgram:
-- 
2.43.0


From 37c02860450347429ca24b8b59c0211dade02e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 39/47] fix: python: allow messages to be sent in datagrams

The request to send a message to an address was refused because it has
one more element than the others.
---
 python/pomp/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index e13b400..91a9353 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -197,8 +197,9 @@ class Connection(object):
         looper.runLoop()
 
     def _onWriteRequest(self, req):
-        (what, txMsg) = req
+        what = req[0]
         if what == Connection._WRITE_MSG:
+            (what, txMsg) = req
             try:
                 self.sock.sendall(txMsg.buf.getData())
             except (OSError, IOError) as ex:
-- 
2.43.0


From 152361095559f0fdec439dff44bc217088efca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 40/47] fix: c++: allow empty buffers to be written

---
 include/libpomp-cxx11.hpp | 3 ++-
 include/libpomp.hpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libpomp-cxx11.hpp b/include/libpomp-cxx11.hpp
index 7f9fb31..ebbed55 100644
--- a/include/libpomp-cxx11.hpp
+++ b/include/libpomp-cxx11.hpp
@@ -185,7 +185,8 @@ template<> struct traits<ArgBuf> {
 	enum {valid = true};
 	typedef std::vector<uint8_t> type;
 	inline static int encode(struct pomp_encoder *enc, const type &v) {
-		const uint8_t *p = v.data();
+		/* The data of an empty vector can be NULL */
+		const void *p = v.empty() ? "" : static_cast<const void *>(v.data());
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(enc, p, n);
 	}
diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index cff77b3..be4bf94 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -352,7 +352,8 @@ public:
 	}
 
 	int write(const std::vector<uint8_t> &v) {
-		const uint8_t *p = v.data();
+		/* The data of an empty vector can be NULL */
+		const void *p = v.empty() ? "" : static_cast<const void *>(v.data());
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(mEnc, p, n);
 	}
-- 
2.43.0


From 9ab0779377ed3800a12f24aa3652d799a1dc9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 41/47] fix: c++: do not leave partial messages when a typed
 write fails

---
 include/libpomp.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index be4bf94..b85f96f 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -157,10 +157,18 @@ public:
 			return -EINVAL;
 		struct pomp_encoder *enc = pomp_encoder_new();
 		pomp_msg_clear(mMsg);
-		pomp_msg_init(mMsg, Fmt::id);
-		pomp_encoder_init(enc, mMsg);
-		int res = Fmt::encode(enc, std::forward<const ArgsW&>(args)...);
-		pomp_msg_finish(mMsg);
+		if (enc == NULL)
+			return -ENOMEM;
+		int res = pomp_msg_init(mMsg, Fmt::id);
+		if (res == 0)
+			res = pomp_encoder_init(enc, mMsg);
+		if (res == 0)
+			res = Fmt::encode(enc, std::forward<const ArgsW&>(args)...);
+		if (res == 0)
+			res = pomp_msg_finish(mMsg);
+		/* Do not leave a partial message in case of error */
+		if (res != 0)
+			pomp_msg_clear(mMsg);
 		pomp_encoder_destroy(enc);
 		return res;
 	}
-- 
2.43.0


From df77d0bbc9cd3273bb291e7c9076e4a167b2d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 42/47] fix: c++: give the connection of received datagrams to
 handlers

---
 include/libpomp.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index b85f96f..8aef7c5 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -831,9 +831,13 @@ private:
 
 		case POMP_EVENT_MSG:
 			it = self->findConn(_conn);
-			if (it != self->mConnections.end())
-				conn = *it;
-			self->mEventHandler->recvMessage(self, conn, Message(_msg));
+			if (it != self->mConnections.end()) {
+				self->mEventHandler->recvMessage(self, *it, Message(_msg));
+			} else {
+				/* Connection of a dgram context, never notified as connected */
+				Connection dgramConn(_conn);
+				self->mEventHandler->recvMessage(self, &dgramConn, Message(_msg));
+			}
 			break;
 
 		default:
@@ -856,7 +860,9 @@ private:
 		/* Get our own object from user data */
 		Context *self = reinterpret_cast<Context *>(_userdata);
 
-		Connection *conn = NULL;
+		/* The connection of a dgram context is never notified as connected */
+		Connection dgramConn(_conn);
+		Connection *conn = &dgramConn;
 		ConnectionArray::iterator it;
 		it = self->findConn(_conn);
 		if (it != self->mConnections.end())
-- 
2.43.0


From 88edf76294f2e87ae118f533d2d90d697ff1f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:40 +0000
Subject: [PATCH 43/47] fix: python: no message of a connection after its
 disconnection

A message posted by the reader thread before the connection was removed was
still given to the application afterwards (even after a stop, if the context
was started again).
---
 python/pomp/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 199d567..8437b70 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -169,7 +169,9 @@ class Context(object):
         elif what == _CONN_REMOVE:
             self._doConnRemove(conn)
         elif what == _CONN_MSG:
-            self.eventHandler.recvMessage(self, conn, rxMsg)
+            # Could have been posted before the connection was removed
+            if conn in self.connections:
+                self.eventHandler.recvMessage(self, conn, rxMsg)
         else:
             assert False
 
-- 
2.43.0


From b0792cb43e419847b0f8da01a554298b99792d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 44/47] fix: python: a peer that is already gone does not end
 the socket thread

Getting the address of a peer that reset the connection before it was accepted
(or just after it was established by a client) fails. The exception ended the
thread of the context: a server did not accept anybody any more and a client
did not try again.
---
 python/pomp/context.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 8437b70..70465c6 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -227,8 +227,10 @@ class Context(object):
                             _log.warning("accept: err=%d(%s)", ex.errno, ex.strerror)
 
                     # Create connection object
+                    conn = None
                     if sockPeer is not None:
-                        conn = Connection(self, sockPeer[0])
+                        conn = self._newConn(sockPeer[0])
+                    if conn is not None:
                         self.mainHandler.post((_CONN_ADD, conn, None))
                     else:
                         # Release our token
@@ -277,15 +279,17 @@ class Context(object):
                         _log.warning("connect: err=%d(%s)", ex.errno, ex.strerror)
 
             # Create connection object, give ownership of socket
+            conn = None
             if connected:
                 try:
                     self.cond.acquire()
-                    conn = Connection(self, self.sock)
+                    conn = self._newConn(self.sock)
                     self.sock = None
-                    self.mainHandler.post((_CONN_ADD, conn, None))
+                    if conn is not None:
+                        self.mainHandler.post((_CONN_ADD, conn, None))
                 finally:
                     self.cond.release()
-            else:
+            if conn is None:
                 # Release our token
                 self.semaphore.release()
 
@@ -337,6 +341,15 @@ class Context(object):
             # Retry again later
             self._waitForRetry(_DGRAM_RECONNECT_DELAY)
 
+    def _newConn(self, sock):
+        # The peer can already be gone, the socket is then useless
+        try:
+            return Connection(self, sock)
+        except (OSError, IOError) as ex:
+            _log.warning("connection: err=%d(%s)", ex.errno, ex.strerror)
+            sock.close()
+            return None
+
     def _setupSock(self, socktype=socket.SOCK_STREAM):
         try:
             self.cond.acquire()
-- 
2.43.0


From 82e947e302623678a610998dc51e6b9acabdbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:36 +0000
Subject: [PATCH 45/47] fix: python: a context can be stopped while a
 connection waits to be added

A connection made by the socket thread is added by the thread of the loop. If
the context was stopped in between, the socket thread waited for ever for the
end of the connection and so did the stop. The connection was moreover closed
later as if it had been started, which failed, and its socket was leaked.
---
 python/pomp/connection.py |  6 ++++++
 python/pomp/context.py    | 26 +++++++++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index 91a9353..53a86ef 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -130,6 +130,12 @@ class Connection(object):
             self.cond.release()
 
     def close(self):
+        # Nobody to stop if never started
+        if self.readThread is None:
+            self.sock.close()
+            self.sock = None
+            return
+
         # Ask everyone to stop
         try:
             self.cond.acquire()
diff --git a/python/pomp/context.py b/python/pomp/context.py
index 70465c6..9226fb9 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -66,6 +66,7 @@ class Context(object):
     def __init__(self, eventHandler):
         self.eventHandler = eventHandler
         self.connections = []
+        self.pendingConnections = []
         self.semaphore = None
         self.sock = None
         self.sockFamily = None
@@ -114,7 +115,9 @@ class Context(object):
         while len(self.connections) > 0:
             self._doConnRemove(self.connections[0])
 
-        # Ask socket thread to stop
+        # Ask socket thread to stop, it could also be waiting for the end of a
+        # connection that has not been added yet
+        self.semaphore.release()
         try:
             self.cond.acquire()
             self.cond.notifyAll()
@@ -129,6 +132,10 @@ class Context(object):
         # Wait socket thread
         self.sockThread.join()
 
+        # Close connections that have not been added yet
+        while len(self.pendingConnections) > 0:
+            self.pendingConnections.pop().close()
+
         # Cleanup
         self.semaphore = None
         self.sock = None
@@ -162,10 +169,11 @@ class Context(object):
         (what, conn, rxMsg) = req
         if not self.running:
             _log.warning("Handler request lost")
-            if what == _CONN_ADD:
-                conn.close()
         elif what == _CONN_ADD:
-            self._doConnAdd(conn)
+            # Could have been closed by a stop in between
+            if conn in self.pendingConnections:
+                self.pendingConnections.remove(conn)
+                self._doConnAdd(conn)
         elif what == _CONN_REMOVE:
             self._doConnRemove(conn)
         elif what == _CONN_MSG:
@@ -175,6 +183,10 @@ class Context(object):
         else:
             assert False
 
+    def _addConn(self, conn):
+        self.pendingConnections.append(conn)
+        self.mainHandler.post((_CONN_ADD, conn, None))
+
     def removeConn(self, conn):
         self.mainHandler.post((_CONN_REMOVE, conn, None))
 
@@ -231,7 +243,7 @@ class Context(object):
                     if sockPeer is not None:
                         conn = self._newConn(sockPeer[0])
                     if conn is not None:
-                        self.mainHandler.post((_CONN_ADD, conn, None))
+                        self._addConn(conn)
                     else:
                         # Release our token
                         self.semaphore.release()
@@ -286,7 +298,7 @@ class Context(object):
                     conn = self._newConn(self.sock)
                     self.sock = None
                     if conn is not None:
-                        self.mainHandler.post((_CONN_ADD, conn, None))
+                        self._addConn(conn)
                 finally:
                     self.cond.release()
             if conn is None:
@@ -328,7 +340,7 @@ class Context(object):
                     self.cond.acquire()
                     conn = Connection(self, self.sock, isDgram=True)
                     self.sock = None
-                    self.mainHandler.post((_CONN_ADD, conn, None))
+                    self._addConn(conn)
                 finally:
                     self.cond.release()
             else:
-- 
2.43.0


From 51f92090159f60e030aa766f7c8103619982ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 46/47] fix: python: answer to the sender of the message being
 received

The reader thread wrote the address of the last datagram in the
connection, an answer sent while handling a message could go to the
sender of a later one.
---
 python/pomp/connection.py | 7 +++----
 python/pomp/context.py    | 9 ++++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index 53a86ef..c193b86 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -162,10 +162,11 @@ class Connection(object):
         # Read loop
         try:
             prot = Protocol()
+            peerAddr = self.peerAddr
             while self.running:
                 # Read and decode data into messages and notify them
                 if self.isDgram:
-                    (buf, self.peerAddr) = self.sock.recvfrom(self._BUFSIZ)
+                    (buf, peerAddr) = self.sock.recvfrom(self._BUFSIZ)
                     # Never mix the content of several datagrams
                     prot = Protocol()
                 else:
@@ -176,9 +177,7 @@ class Connection(object):
                 while off < len(buf):
                     (off, rxMsg) = prot.decode(buf, off)
                     if rxMsg is not None:
-                        self.ctx.notifyMessage(self, rxMsg)
-                if self.isDgram:
-                    self.peerAddr
+                        self.ctx.notifyMessage(self, rxMsg, peerAddr)
                 if off == self._BUFSIZ:
                     _log.warning("Rx buffer full (%s bytes)" % self._BUFSIZ)
         except (OSError, IOError) as ex:
diff --git a/python/pomp/context.py b/python/pomp/context.py
index 9226fb9..ba50fa7 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -166,7 +166,7 @@ class Context(object):
         self.sockThread.start()
 
     def _onRequest(self, req):
-        (what, conn, rxMsg) = req
+        (what, conn, data) = req
         if not self.running:
             _log.warning("Handler request lost")
         elif what == _CONN_ADD:
@@ -179,6 +179,9 @@ class Context(object):
         elif what == _CONN_MSG:
             # Could have been posted before the connection was removed
             if conn in self.connections:
+                # Answers shall go to the sender of this message, the reader
+                # thread could already have received one from someone else
+                (rxMsg, conn.peerAddr) = data
                 self.eventHandler.recvMessage(self, conn, rxMsg)
         else:
             assert False
@@ -190,8 +193,8 @@ class Context(object):
     def removeConn(self, conn):
         self.mainHandler.post((_CONN_REMOVE, conn, None))
 
-    def notifyMessage(self, conn, msg):
-        self.mainHandler.post((_CONN_MSG, conn, msg))
+    def notifyMessage(self, conn, msg, peerAddr):
+        self.mainHandler.post((_CONN_MSG, conn, (msg, peerAddr)))
 
     def _doConnAdd(self, conn):
         self.connections.append(conn)
-- 
2.43.0


From 2ca4f4a8ebc27330406fbe76057fb42472ea7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:16 +0000
Subject: [PATCH 47/47] fix: python: pad abstract names by their size in bytes

---
 python/pomp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pomp/__init__.py b/python/pomp/__init__.py
index 9e41dba..407216d 100644
--- a/python/pomp/__init__.py
+++ b/python/pomp/__init__.py
@@ -59,7 +59,9 @@ def parseAddr(buf):
     elif buf.startswith("unix:"):
         path = buf[5:]
         if path.startswith("@"):
-            path = "\x00" + path[1:] + (108 - len(path)) * "\x00"
+            # The size of the name is in bytes, not in characters
+            size = len(path if isinstance(path, bytes) else path.encode("utf-8"))
+            path = "\x00" + path[1:] + (108 - size) * "\x00"
         return (socket.AF_UNIX, path)
     else:
         raise ValueError("Unable to parse address: '%s" % buf)
-- 
2.43.0

