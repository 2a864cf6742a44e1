From a15336b5a7bddc1d8f22a03ff04d95ac14f489a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 01/59] fix: hash dictionary keys of 256 bytes and more without
 looping forever

---
 src/simple_sparsehash.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..8dfb3ad 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -15,12 +15,10 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 	static const uint64_t fnv_prime = 1099511628211ULL;
 	static const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = klen;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < klen; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From 5f99a5ed2e0a599e9190fbcb4d89829913d57ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 02/59] fix: hash strings of 256 bytes and more without looping
 forever

---
 src/utils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index f1e50eb..26c9c97 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -101,12 +101,10 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 	const uint64_t fnv_prime = 1099511628211ULL;
 	const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = siz;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < siz; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From ef17a6b09e670f7a09218505212cf220e78d6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 03/59] fix: overwriting a dictionary entry freed a pointer
 into the middle of a block

---
 src/simple_sparsehash.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 8dfb3ad..7906397 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -386,14 +386,13 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
+					/* The key lives in the same block as the value. */
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From e09ed6d5d8e36f46defc855e0daa15627477c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 04/59] fix: probe every slot of the dictionary so that
 colliding keys can be stored

---
 src/simple_sparsehash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 7906397..d3df561 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,8 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+/* Triangular numbers visit every slot of a power of two sized table. */
+#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * (num_probes + 1) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 4bcdcc6f497514f5ed675216208b36f0423dfb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 05/59] fix: refuse sparse array accesses at the maximum

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index d3df561..c9f3da1 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -212,7 +212,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -223,7 +223,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From 84fa0eb209c45136f513630c166a66d849883052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 06/59] fix: grow vectors of capacity 0 and keep them intact
 when growing fails

---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..9d5538e 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,11 +27,12 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	if (item_size != 0 && item != NULL) {
@@ -53,11 +54,12 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	memcpy(nth(vec->count), &pointer, sizeof(void *));
-- 
2.43.0


From 705e76cab14807bff31ad20cd0e4105b93eabe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 07/59] fix: vector_get returned items beyond the end of the
 vector

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 9d5538e..5300193 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From b9d0901497995f5e1eee5cfd88a6ca1f9825b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 08/59] fix: strnstr missed a match ending exactly at the limit

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 26c9c97..887f8bf 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i<=(int)(len-needle_len); i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From 2529d0e2e5421eeeb010b56540869d225a720f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 09/59] fix: look cookies up by their exact name and return
 only their value

---
 src/utils.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 887f8bf..f124665 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -119,29 +119,29 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
+	const size_t needle_len = strlen(needle);
+	const char *end = cookie_string + strnlen(cookie_string, cookie_string_siz);
+	const char *cookie = cookie_string;
+
+	while (cookie < end) {
+		while (cookie < end && *cookie == ' ')
+			cookie++;
+
+		const char *cookie_end = memchr(cookie, ';', end - cookie);
+		if (!cookie_end)
+			cookie_end = end; /* This is okay, it might be the last cookie. */
+
+		const size_t cookie_len = cookie_end - cookie;
+		if (cookie_len > needle_len && cookie[needle_len] == '=' &&
+				strncmp(cookie, needle, needle_len) == 0) {
+			/* +1 here is for the '=': */
+			return strndup(cookie + needle_len + 1, cookie_len - needle_len - 1);
+		}
 
-	const char *cookie_string_start = cookie_loc;
-	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
-	if (!cookie_string_end) {
-			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
+		if (cookie_end == end)
+			break;
+		cookie = cookie_end + 1;
 	}
 
-	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-	const char *cookie_string_value = strnstr(cookie_loc, "=", cookie_string_size);
-	if (!cookie_string_value)
-			return NULL;
-
-	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
-	data[cookie_string_value_size] = '\0';
-	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
-
-	return data;
+	return NULL;
 }
-- 
2.43.0


From 876d1d2d5256603670238e8e5585e3a0b8fc0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 10/59] fix: look header fields up by their exact name within
 the header block

---
 src/parse.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..e5cb355 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -99,23 +99,29 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 }
 
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
-	/* TODO: Make sure this function handles bad input. */
-	char *data = NULL;
-	const char *header_loc = strnstr(request, header, request_siz);
-	if (!header_loc)
-		return NULL;
-
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
-	if (!header_value_end)
-		return NULL;
-
-	const size_t header_value_size = header_value_end - header_value_start;
-	data = calloc(sizeof(char), header_value_size + 1);
-	data[header_value_size] = '\0';
-	strncpy(data, header_value_start, header_value_size);
-
-	return data;
+	const size_t header_size = strlen(header);
+	const char *request_end = request + request_siz;
+	/* The first line is the request itself, header fields start on the second. */
+	const char *line_end = memmem(request, request_siz, "\r\n", strlen("\r\n"));
+
+	while (line_end != NULL) {
+		const char *line = line_end + strlen("\r\n");
+		line_end = memmem(line, request_end - line, "\r\n", strlen("\r\n"));
+		/* An empty line is the end of the header. */
+		if (line_end == NULL || line_end == line)
+			return NULL;
+
+		const char *value = line + header_size;
+		if (value >= line_end || *value != ':' || strncmp(line, header, header_size) != 0)
+			continue;
+
+		value++;
+		while (value < line_end && (*value == ' ' || *value == '\t'))
+			value++;
+		return strndup(value, line_end - value);
+	}
+
+	return NULL;
 }
 
 char *m38_get_header_value_request(const m38_http_request *req, const char header[static 1]) {
-- 
2.43.0


From ad9efd0219415177bdd8234b1769b26e6bbf7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 11/59] fix: find the end of the header within the bytes read
 and copy the header whole

---
 src/parse.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index e5cb355..219faf5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -150,7 +150,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	/* Parse full header here. */
 	size_t header_length = 0;
 	int found_end = 0;
-	while (header_length + 3 <= num_read) {
+	while (header_length + 3 < num_read) {
 		if (to_read[header_length] == '\r' &&
 		    to_read[header_length + 1] == '\n' &&
 		    to_read[header_length + 2] == '\r' &&
@@ -167,7 +167,12 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
-	out->full_header = strndup((char *)to_read, header_length);
+	/* The header may contain anything, NUL bytes too. */
+	out->full_header = malloc(header_length + 1);
+	if (out->full_header == NULL)
+		goto error;
+	memcpy(out->full_header, to_read, header_length);
+	out->full_header[header_length] = '\0';
 	out->header_len = header_length;
 
 	return 0;
-- 
2.43.0


From 28fbf2df7b7d8d01d59660d497dfaeb61a0756ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 12/59] fix: reject a verb that does not fit instead of
 truncating it

---
 src/parse.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 219faf5..7f3e55d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -135,16 +135,18 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 
 	const size_t c_verb_size = verb_end - (char *)to_read;
-	const size_t verb_size = c_verb_size >= sizeof(out->verb) ? sizeof(out->verb) - 1: c_verb_size;
+	if (c_verb_size >= sizeof(out->verb))
+		goto error;
+	const size_t verb_size = c_verb_size;
 	strncpy(out->verb, (char *)to_read, verb_size);
 
 	const char *res_offset = verb_end + strlen(" ");
+	/* A resource that doesn't fit, with its terminator, is not found. */
 	const char *resource_end = strnstr(res_offset, " ", sizeof(out->resource));
 	if (resource_end == NULL)
 		goto error;
 
-	const size_t c_resource_size = resource_end - res_offset;
-	const size_t resource_size = c_resource_size >= sizeof(out->resource) ? sizeof(out->resource) : c_resource_size;
+	const size_t resource_size = resource_end - res_offset;
 	strncpy(out->resource, res_offset, resource_size);
 
 	/* Parse full header here. */
-- 
2.43.0


From 3709b5f76d10d719227ec0c4c2c9510fbba67a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 13/59] fix: keep request bodies containing NUL bytes whole

---
 src/parse.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 7f3e55d..86f4d7e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -183,6 +183,16 @@ error:
 	return -1;
 }
 
+/* Bodies may contain NUL bytes. */
+static unsigned char *_copy_body(const char *body_start, const size_t body_len) {
+	unsigned char *body = malloc(body_len + 1);
+	if (body == NULL)
+		return NULL;
+	memcpy(body, body_start, body_len);
+	body[body_len] = '\0';
+	return body;
+}
+
 int m38_parse_body(const size_t received_body_len,
 			   const size_t content_length_num,
 			   const unsigned char *raw_request,
@@ -192,15 +202,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = _copy_body(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_body(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_body(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From 1beb3f6d7f37563303a8b6e8481e93a685fb2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 14/59] fix: read requests until the announced body has
 arrived, however the network splits them

---
 src/grengine.c | 133 +++++++++++++++++++++++++------------------------
 1 file changed, 69 insertions(+), 64 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..bfaf62e 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -3,6 +3,7 @@
 	#pragma clang diagnostic ignored "-Wmissing-field-initializers"
 #endif
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <regex.h>
 #include <stdio.h>
@@ -314,66 +315,75 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
+/* Content-Length is a number and nothing else; no such header means no body. */
+static int get_content_length(const char *header, const size_t header_len, size_t *clength_num) {
+	*clength_num = 0;
+	char *clength = m38_get_header_value_raw(header, header_len, "Content-Length");
+	if (clength == NULL)
+		return 0;
+
+	int rc = 0;
+	const char *c = clength;
+	while (*c >= '0' && *c <= '9' && *clength_num <= MAX_REQUEST_SIZE)
+		*clength_num = *clength_num * 10 + (size_t)(*c++ - '0');
+	if (c == clength)
+		rc = -1;
+	while (*c == ' ' || *c == '\t')
+		c++;
+	if (*c != '\0' || *clength_num > MAX_REQUEST_SIZE)
+		rc = -1;
+
+	free(clength);
+	return rc;
+}
+
+/* Reads until a whole request (the header, and the body it announces) is there, the peer stops
+ * sending or MAX_REQUEST_SIZE is reached. There's always a terminator after the bytes read. */
 static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
-	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
-		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
+	size_t header_len = 0;
+	size_t clength_num = 0;
+	size_t scanned = 0;
+
+	do {
+		const ssize_t read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0);
+		if (read_this_time < 0) {
+			if (errno == EINTR)
+				continue;
+			m38_log_msg(LOG_ERR, "Could not read request.");
+			goto error;
+		}
+		if (read_this_time == 0)
 			break;
-		read_this_time = 0;
+		*num_read += read_this_time;
 
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
-		if (!(*to_read)) {
+		unsigned char *bigger = realloc(*to_read, *num_read + MAX_READ_LEN + 1);
+		if (!bigger) {
 			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
 			goto error;
 		}
-		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
-		if (*num_read >= MAX_REQUEST_SIZE)
-			break;
-	}
-
-	return 0;
-
-error:
-	return -1;
-}
-
-static int attempt_reread_from_socket(
-		const int accept_fd, const size_t clength_num,
-		const size_t post_body_len, m38_http_request *out) {
-
-	unsigned char *to_read = NULL;
-	size_t num_read = 0;
+		*to_read = bigger;
+		memset(*to_read + *num_read, '\0', MAX_READ_LEN + 1);
+
+		for (; header_len == 0 && scanned + 3 < *num_read; scanned++) {
+			if (memcmp(*to_read + scanned, "\r\n\r\n", 4) == 0) {
+				header_len = scanned + 4;
+				if (get_content_length((char *)*to_read, header_len, &clength_num) != 0)
+					goto error;
+			}
+		}
 
-	/* If we have a post_body_len > 0, we don't have to reread from the socket. */
-	/* In addition, if we have a longer content-length than we have known post-body
-	 * length, than we should attempt to re-read from the client. */
-	if ((post_body_len <= 0 && clength_num > 0) ||
-		(post_body_len > 0 && post_body_len < clength_num)) {
-
-		to_read = calloc(1, MAX_READ_LEN);
-
-		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
-		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
-		/* ------------------------------------- */
-		/* XXX: Do a select here with a timeout. */
-		/* ------------------------------------- */
-		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-		if (rc != 0)
-			goto error;
-	}
+		if (header_len > 0 && *num_read - header_len >= clength_num)
+			break;
+	} while (*num_read < MAX_REQUEST_SIZE);
 
-	out->full_body = to_read;
-	out->body_len = num_read;
 	return 0;
 
 error:
-	free(to_read);
 	return -1;
 }
 
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
-	unsigned char *to_read = calloc(1, MAX_READ_LEN);
+	unsigned char *to_read = calloc(1, MAX_READ_LEN + 1);
 	char *actual_response = NULL;
 	m38_http_response response = {
 		.mimetype = {0},
@@ -406,30 +416,25 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		goto error;
 	}
 
-	char *clength = m38_get_header_value_raw(request.full_header, request.header_len, "Content-Length");
 	size_t clength_num = 0;
-	if (clength == NULL) {
-		m38_log_msg(LOG_WARN, "Could not parse content length.");
-	} else {
-		clength_num = atoi(clength);
-		free(clength);
+	rc = get_content_length(request.full_header, request.header_len, &clength_num);
+	if (rc != 0) {
+		m38_log_msg(LOG_ERR, "Could not parse content length.");
+		goto error;
 	}
 
 	/* Do we have a POST body or something? */
 	const size_t post_body_len = num_read - request.header_len;
-	if (post_body_len <= 0 && clength_num > 0) {
-		/* re-read will just copy into the m38_http_request. */
-		rc = attempt_reread_from_socket(accept_fd, clength_num, post_body_len, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not reread from socket and parse body.");
-			goto error;
-		}
-	} else {
-		rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not parse body.");
-			goto error;
-		}
+	if (post_body_len < clength_num) {
+		m38_log_msg(LOG_ERR, "Content-Length is %zu but we got a post_body_len of %zu.", clength_num, post_body_len);
+		goto error;
+	}
+
+	/* Anything after the announced body doesn't belong to this request. */
+	rc = m38_parse_body(clength_num, clength_num, to_read, &request);
+	if (rc != 0) {
+		m38_log_msg(LOG_ERR, "Could not parse body.");
+		goto error;
 	}
 
 	/* Parses form encoding, if applicable: */
-- 
2.43.0


From 2504412378f944aa0c2454356f5c73419c145dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 15/59] fix: release everything and close the connection when a
 request is not answered

---
 src/grengine.c | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index bfaf62e..a6cb920 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -19,6 +19,7 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
 #include "types.h"
 
@@ -382,6 +383,17 @@ error:
 	return -1;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response) {
+	size_t i = 0;
+	for (i = 0; i < response->extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
+		free((char *)(*pair)->header);
+		free((char *)(*pair)->value);
+		free(*pair);
+	}
+	vector_free(response->extra_headers);
+}
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN + 1);
 	char *actual_response = NULL;
@@ -391,15 +403,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	};
 	response.extra_headers = vector_new(sizeof(m38_header_pair *), 4);
 
-	m38_handled_request *hreq = NULL;
-	const m38_route *matching_route = NULL;
-	size_t num_read = 0;
-	int rc = 0;
-
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -410,6 +413,15 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	m38_handled_request *hreq = NULL;
+	const m38_route *matching_route = NULL;
+	size_t num_read = 0;
+	int rc = 0;
+
+	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
@@ -640,31 +652,24 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	_clean_up_extra_headers(&response);
+	close(accept_fd);
 	free(actual_response);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return NULL;
 }
 
-static void _clean_up_extra_headers(m38_http_response *response) {
-	size_t i = 0;
-	for (i = 0; i < response->extra_headers->count; i++) {
-		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
-		free((char *)(*pair)->header);
-		free((char *)(*pair)->value);
-		free(*pair);
-	}
-	vector_free(response->extra_headers);
-}
-
 m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 	/* Send that shit over the wire: */
 	const m38_route *matching_route = hreq->matching_route;
-- 
2.43.0


From 3d368cc98f59a49317b31511226d8bef5457a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 16/59] fix: decode form bodies within bounds, keeping the raw
 body and the decoded lengths

---
 src/parse.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 86f4d7e..b121b0e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -227,27 +227,36 @@ int m38_parse_body(const size_t received_body_len,
 int m38_parse_form_encoded_body(m38_http_request *request) {
 	struct sparse_dict *new_dict = NULL;
 	char *potential_kv_pair = NULL;
+	/* Work on a copy, the raw body is still interesting to handlers. */
 	char *duplicated_body = strndup((char *)request->full_body, request->body_len);
 	if (!duplicated_body) {
 		goto err;
 	}
 
 	new_dict = sparse_dict_init();
+	if (!new_dict) {
+		goto err;
+	}
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
-		char *key = NULL;
-		char *value = NULL;
-		key = strsep(&potential_kv_pair, "=");
-		value = strsep(&potential_kv_pair, "=");
+	char *remaining_pairs = duplicated_body;
+	while ((potential_kv_pair = strsep(&remaining_pairs, "&")) != NULL) {
+		/* The value is everything after the first '='. */
+		char *key = strsep(&potential_kv_pair, "=");
+		char *value = potential_kv_pair;
 
 		if (!key || !value) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
-		if (m38_url_decode(value, decoded_buffer) > 0) {
-			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
-		} else {
+		/* Decoding never makes anything longer. */
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
+		if (!decoded_buffer) {
+			goto err;
+		}
+
+		/* The decoded length includes the terminator. */
+		const int decoded_size = m38_url_decode(value, decoded_buffer);
+		if (decoded_size <= 0 || !sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, decoded_size - 1)) {
 			m38_log_msg(LOG_WARN, "Could not place item into form elements dict.");
 		}
 		free(decoded_buffer);
@@ -259,6 +268,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 err:
 	free(duplicated_body);
-	free(new_dict);
+	if (new_dict)
+		sparse_dict_free(new_dict);
 	return -1;
 }
-- 
2.43.0


From 998ff0bedca121a1583ef40a55889ec563128730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 17/59] fix: writing custom headers overran a buffer on the
 stack

---
 src/grengine.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index a6cb920..2ae08e1 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -571,7 +571,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		size_t i = 0;
 		for (i = 0; i < response.extra_headers->count; i++) {
 			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			header_size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
+			header_size += strlen((*pair)->header) + strlen(": ") + strlen((*pair)->value)
 								    + strlen("\r\n");
 		}
 		actual_response_siz = response.outsize + header_size;
@@ -583,12 +583,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		snprintf(actual_response, actual_response_siz, matched_response->message, response.mimetype, response.outsize);
 		for (i = 0; i < response.extra_headers->count; i++) {
 			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n") + 1;
-			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
-			strncat(actual_response, buf, siz);
+			strcat(actual_response, (*pair)->header);
+			strcat(actual_response, ": ");
+			strcat(actual_response, (*pair)->value);
+			strcat(actual_response, "\r\n");
 		}
 		strcat(actual_response, r_final);
 
-- 
2.43.0


From 374c5ab81ab789ec4d64f71ee2924f6ab5f7a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 18/59] fix: report whether a custom header was added

---
 src/grengine.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 2ae08e1..bc69723 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -284,6 +284,8 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	const char *copied_value = strndup(value, value_len);
 	if (!copied_header || !copied_value) {
 		m38_log_msg(LOG_ERR, "Could not create copied values for http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
 		free(new_pair);
 		return 0;
 	}
@@ -295,9 +297,15 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 		.value_len = value_len,
 	};
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
-	vector_append_ptr(response->extra_headers, new_pair);
+	if (!vector_append_ptr(response->extra_headers, new_pair)) {
+		m38_log_msg(LOG_ERR, "Could not add header_pair to http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
+		free(new_pair);
+		return 0;
+	}
 
-	return 0;
+	return 1;
 }
 
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
-- 
2.43.0


From 99e0183d9025a57e70eca3163d923c824bcaf1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 19/59] fix: send exactly the requested byte range, and only
 for successes with a body

---
 src/grengine.c | 97 ++++++++++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index bc69723..e9ff811 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -402,6 +402,27 @@ static void _clean_up_extra_headers(m38_http_response *response) {
 	vector_free(response->extra_headers);
 }
 
+static size_t _extra_headers_size(const m38_http_response *response) {
+	size_t total = 0;
+	size_t i = 0;
+	for (i = 0; i < response->extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
+		total += strlen((*pair)->header) + strlen(": ") + strlen((*pair)->value) + strlen("\r\n");
+	}
+	return total;
+}
+
+static void _append_extra_headers(char *header, const m38_http_response *response) {
+	size_t i = 0;
+	for (i = 0; i < response->extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
+		strcat(header, (*pair)->header);
+		strcat(header, ": ");
+		strcat(header, (*pair)->value);
+		strcat(header, "\r\n");
+	}
+}
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN + 1);
 	char *actual_response = NULL;
@@ -547,7 +568,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
 
@@ -566,22 +587,18 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	 * compile time. */
 	assert(matched_response != NULL);
 
+	if (response.mimetype[0] == '\0')
+		memcpy(response.mimetype, "text/html", strlen("text/html"));
+
 	if (response_code == 200 || response_code == 404 || response_code == 301 ||
 			response_code == 302 ||response_code == 400 || response_code == 403 ||
 			response_code == 500) {
 		const size_t integer_length = UINT_LEN(response.outsize);
-		if (response.mimetype[0] == '\0')
-			memcpy(response.mimetype, "text/html", strlen("text/html"));
 
 		header_size = strlen(response.mimetype) + strlen(matched_response->message)
 			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
 
-		size_t i = 0;
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			header_size += strlen((*pair)->header) + strlen(": ") + strlen((*pair)->value)
-								    + strlen("\r\n");
-		}
+		header_size += _extra_headers_size(&response);
 		actual_response_siz = response.outsize + header_size;
 		actual_response = malloc(actual_response_siz + 1);
 		memset(actual_response, '\0', actual_response_siz);
@@ -589,61 +606,55 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message, response.mimetype, response.outsize);
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			strcat(actual_response, (*pair)->header);
-			strcat(actual_response, ": ");
-			strcat(actual_response, (*pair)->value);
-			strcat(actual_response, "\r\n");
-		}
+		_append_extra_headers(actual_response, &response);
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
 		memcpy(actual_response + header_size, response.out, response.outsize);
 	} else if (response_code == 206) {
 		/* Byte range queries have some extra shit. */
-		m38_range_header byte_range = m38_parse_range_header(range_header_value);
-		/* TODO: Add the custom header stuff here (for 206), too. */
-
-		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
-
-		size_t end_byte = 0;
-		if (byte_range.limit == 0) {
-			end_byte = response.outsize - 1;
-		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
-		}
-
-		if (end_byte >= response.outsize)
-			end_byte = response.outsize - 1;
-		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
-		const size_t max_size = response.outsize; /* Should be the same as file size. */
-		const size_t integer_length = UINT_LEN(max_size);
-
-		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
-		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
+		m38_range_header byte_range = m38_parse_range_header(range_header_value ? range_header_value : "");
+
+		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu",
+			range_header_value ? range_header_value : "", byte_range.limit, byte_range.offset);
+
+		const size_t full_size = response.outsize; /* Should be the same as file size. */
+		const size_t last_byte = full_size > 0 ? full_size - 1 : 0;
+		/* Ranges that start after the end get everything, like malformed ones. */
+		const int satisfiable = byte_range.offset <= last_byte;
+		const size_t start_byte = satisfiable ? byte_range.offset : 0;
+		const size_t end_byte = satisfiable && byte_range.limit != 0 && byte_range.limit < last_byte ?
+			byte_range.limit : last_byte;
+		const size_t partial_size = full_size > 0 ? end_byte - start_byte + 1 : 0;
+
+		const size_t integer_length = UINT_LEN(full_size);
+		const size_t partial_len = UINT_LEN(partial_size);
+		const size_t minb_len = UINT_LEN(start_byte);
+		const size_t maxb_len = UINT_LEN(end_byte);
 		/* Compute the size of the header */
 		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
+			+ partial_len + minb_len + maxb_len + integer_length
 			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
+		header_size += _extra_headers_size(&response);
+		actual_response_siz = partial_size + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
-			start_byte, end_byte, max_size);
-		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
+			response.mimetype, partial_size,
+			start_byte, end_byte, full_size);
+		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, full_size);
 
+		_append_extra_headers(actual_response, &response);
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+		memcpy(actual_response + header_size, response.out + start_byte, partial_size);
 	}
 
+	free(range_header_value);
 	log_request(&request, &response, response_code);
 
 	hreq = malloc(sizeof(m38_handled_request));
-- 
2.43.0


From 9373e9366bbb9a96f6159f68e0bc6ff9041ff6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 20/59] fix: continue after the bytes that were really sent

---
 src/grengine.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index e9ff811..f5b4d43 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -693,13 +693,14 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 	const size_t bytes_left = hreq->response_len - hreq->sent;
 	const size_t to_send = bytes_left < 4096 ? bytes_left : 4096;
-	int rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	const ssize_t rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
 	if (rc <= 0) {
 		m38_log_msg(LOG_ERR, "Could not send response.");
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	/* It's fine if not everything was sent, the rest comes next time. */
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From 5547c2145fdaeb5be035834fdfca10b2f7f8c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 21/59] fix: clean up with the response's status when sending
 fails, so that the body is released

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index f5b4d43..3056e26 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -719,7 +719,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From 3a868f4453f56bd7c2e2ec20aeca7514d283a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 22/59] fix: release the context when the template file cannot
 be rendered

---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 3056e26..bf055df 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -155,8 +155,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
-- 
2.43.0


From f50e98a09de7908a57612a77c66632d0b144eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 23/59] fix: find the extension of a file whatever the length
 of its path

---
 src/grengine.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index bf055df..ffbbc63 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -228,18 +228,11 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 
 	/* Figure out the mimetype for this resource: */
 	char ending[16] = {0};
-	unsigned int i = sizeof(ending);
-	int found_dot = 0;
-	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
-		if (file_path[i] == '.') {
-			found_dot = 1;
-			break;
-		}
-	}
+	const char *file_name = strrchr(file_path, '/');
+	const char *dot = strrchr(file_name != NULL ? file_name : file_path, '.');
 	if (strlen(response->mimetype) == 0) {
-		if (found_dot) {
-			strncpy(ending, file_path + i, sizeof(ending) - 1);
+		if (dot != NULL) {
+			strncpy(ending, dot, sizeof(ending) - 1);
 			guess_mimetype(ending, sizeof(ending), response);
 		} else {
 			/* Fuck it, do something smart later with render_file. */
-- 
2.43.0


From 66db0e2fe88273096d178d763e35b37fb35c19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 24/59] fix: serve empty files

---
 src/grengine.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index ffbbc63..96d546d 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -161,7 +161,7 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	}
 
 	/* Render the mmap()'d file with greshunkel */
-	const char *mmapd_region = (char *)response->out;
+	const char *mmapd_region = response->out != NULL ? (char *)response->out : "";
 	const size_t original_size = response->outsize;
 
 	size_t new_size = 0;
@@ -169,8 +169,10 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	gshkl_free_context((greshunkel_ctext *)ctext);
 
 	/* Clean up the stuff we're no longer using. */
-	munmap(response->out, original_size);
+	if (response->out != NULL)
+		munmap(response->out, original_size);
 	free(response->extra_data);
+	response->extra_data = NULL;
 
 	/* Make sure the response is kept up to date: */
 	response->outsize = new_size;
@@ -207,7 +209,11 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	const size_t c_offset = offset != NULL ? *offset : 0;
 	const size_t c_limit = limit != NULL ? (*limit - c_offset) : (st.st_size - c_offset);
 
-	response->out = mmap(NULL, c_limit, PROT_READ, MAP_PRIVATE, fd, c_offset);
+	/* Empty files are fine, there just isn't anything to map. */
+	if (c_limit == 0 && S_ISREG(st.st_mode))
+		response->out = NULL;
+	else
+		response->out = mmap(NULL, c_limit, PROT_READ, MAP_PRIVATE, fd, c_offset);
 	response->outsize = c_limit - c_offset;
 
 	if (response->out == MAP_FAILED) {
@@ -224,7 +230,8 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	}
 	close(fd);
 
-	madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
+	if (response->out != NULL)
+		madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
 
 	/* Figure out the mimetype for this resource: */
 	char ending[16] = {0};
@@ -259,7 +266,8 @@ void m38_heap_cleanup(const int status_code, m38_http_response *response) {
 
 void m38_mmap_cleanup(const int status_code, m38_http_response *response) {
 	if (RESPONSE_OK(status_code)) {
-		munmap(response->out, response->outsize);
+		if (response->out != NULL)
+			munmap(response->out, response->outsize);
 		free(response->extra_data);
 	}
 }
@@ -605,7 +613,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out, response.outsize);
+		if (response.outsize > 0)
+			memcpy(actual_response + header_size, response.out, response.outsize);
 	} else if (response_code == 206) {
 		/* Byte range queries have some extra shit. */
 		m38_range_header byte_range = m38_parse_range_header(range_header_value ? range_header_value : "");
-- 
2.43.0


From 8d7251e327b442627f6b1799433be517138e9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 25/59] fix: fall back to the internal 404 page while no custom
 handler is set

---
 src/grengine.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 96d546d..c017c1d 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -561,7 +561,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		if (matching_route->handler) {
 			response_code = matching_route->handler(&request, &response);
 		} else {
-			m38_log_msg(LOG_ERR, "No handler for route %s.", matching_route->name);
+			/* Only the cleanup was set. */
+			m38_log_msg(LOG_INFO, "No handler for route %s, using the internal one.", matching_route->name);
+			matching_route = &r_404_route;
+			response_code = matching_route->handler(&request, &response);
 		}
 	}
 
-- 
2.43.0


From b19d3169b598b25e187d9d512b0312435ad0de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 26/59] fix: release the content type of requests

---
 src/grengine.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index c017c1d..f216e8c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -490,12 +490,12 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			strlen(content_type) >= form_encoding_siz &&
 			strncmp(form_encoding, content_type, form_encoding_siz) == 0) {
 		rc = m38_parse_form_encoded_body(&request);
-		if (rc != 0) {
-			/* application/x-www-form-urlencoded */
-			m38_log_msg(LOG_ERR, "Could not parse form-urlencoded body.");
-			goto error;
-		}
-	
+	}
+	free(content_type);
+	if (rc != 0) {
+		/* application/x-www-form-urlencoded */
+		m38_log_msg(LOG_ERR, "Could not parse form-urlencoded body.");
+		goto error;
 	}
 
 	/* Find our matching route: */
-- 
2.43.0


From 4d505a63b6e1673867c240334f17e10eb3f11429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 27/59] fix: report the exact length of rendered templates, and
 render empty ones

---
 src/greshunkel.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..1654387 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -982,8 +982,11 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	assert(ctext != NULL);
 
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
+	char *rendered = calloc(1, 1);
 	size_t intermediate_outsize = 0;
+	/* The end of the last line doesn't count, but there isn't one after a loop or a conditional. */
+	size_t line_end_size = 0;
+	assert(rendered != NULL);
 
 	struct compiled_regex all_regex;
 	_compile_regex(&all_regex);
@@ -993,6 +996,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		line current_line = read_line(to_render + num_read);
 
 		line to_append = {0};
+		line_end_size = 0;
 		size_t loop_readahead = 0;
 		/* The loop needs to read more than the current line, so we pass
 		 * in the offset and just let it go. If it processes more than the
@@ -1009,6 +1013,9 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 			if (conditional_readahead == 0) {
 				to_append = _interpolate_line(ctext, current_line, &all_regex);
 				num_read += current_line.size;
+				const char line_end = current_line.data[current_line.size - 1];
+				if (to_append.size > 0 && to_append.data[to_append.size - 1] == line_end)
+					line_end_size = 1;
 			} else {
 				num_read += conditional_readahead;
 			}
@@ -1035,7 +1042,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
-		*outsize = intermediate_outsize - 1;
+		*outsize = intermediate_outsize - line_end_size;
 	return rendered;
 
 error:
-- 
2.43.0


From eb6b818091a288691f311133c5117342fc2eed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 28/59] fix: render only the given bytes of a template

---
 src/greshunkel.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1654387..a784839 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -991,9 +991,15 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	struct compiled_regex all_regex;
 	_compile_regex(&all_regex);
 
+	/* There doesn't have to be a terminator after the template. */
+	char *template = malloc(original_size + 1);
+	assert(template != NULL);
+	memcpy(template, to_render, original_size);
+	template[original_size] = '\0';
+
 	size_t num_read = 0;
 	while (num_read < original_size) {
-		line current_line = read_line(to_render + num_read);
+		line current_line = read_line(template + num_read);
 
 		line to_append = {0};
 		line_end_size = 0;
@@ -1002,13 +1008,13 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		 * in the offset and just let it go. If it processes more than the
 		 * size of the current line, we know it did something.
 		 * Append the whole line it gets back. */
-		to_append = _interpolate_loop(ctext, to_render + num_read, &loop_readahead, &all_regex);
+		to_append = _interpolate_loop(ctext, template + num_read, &loop_readahead, &all_regex);
 
 		/* Otherwise just interpolate the line like normal. */
 		if (loop_readahead == 0) {
 			/* Now let's try to interpolate an if statement, much like a loop. */
 			size_t conditional_readahead = 0;
-			to_append = _interpolate_conditionals(ctext, to_render + num_read, &conditional_readahead, &all_regex);
+			to_append = _interpolate_conditionals(ctext, template + num_read, &conditional_readahead, &all_regex);
 
 			if (conditional_readahead == 0) {
 				to_append = _interpolate_line(ctext, current_line, &all_regex);
@@ -1039,6 +1045,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		free(to_append.data);
 	}
 	_destroy_regex(&all_regex);
+	free(template);
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
@@ -1046,6 +1053,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	return rendered;
 
 error:
+	free(template);
 	free(rendered);
 	return NULL;
 }
-- 
2.43.0


From 7d5b4524d3131380fd876fa78afe199c1cc69d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 29/59] fix: include whole files, whatever their size

---
 src/greshunkel.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a784839..13ba150 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -510,9 +510,10 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 
 		/* Open the file here. */
-		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
-		char template_file[2048] = {0};
+		const size_t read_size = 2048;
+		char *template_file = NULL;
 		size_t template_file_siz = 0;
+		size_t num_read = 0;
 		FILE *include_file = fopen(just_match_str, "r");
 		if (!include_file) {
 			/* If we couldn't open the file, blow up with an assertion. */
@@ -521,12 +522,17 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		do {
+			template_file = realloc(template_file, template_file_siz + read_size);
+			assert(template_file != NULL);
+			num_read = fread(template_file + template_file_siz, 1, read_size, include_file);
+			template_file_siz += num_read;
+		} while (num_read > 0);
 		fclose(include_file);
-		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
 		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
+		free(template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
-- 
2.43.0


From ffb39be3b210c3653acd9f6a29b4c2c8c1f26f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 30/59] fix: release every intermediate line of a rendering
 exactly once

---
 src/greshunkel.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 13ba150..564ed9d 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -577,7 +577,8 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 			assert(tuple->type == GSHKL_STR);
 		}
 
-		free(interpolated_line.data);
+		if (operating_line->data != current_line.data)
+			free(operating_line->data);
 		interpolated_line.size = new_line_to_add.size;
 		interpolated_line.data = new_line_to_add.data;
 		new_line_to_add.size = 0;
@@ -590,12 +591,12 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
+	if (included_line.data != operating_line->data && operating_line->data != current_line.data)
 		free(operating_line->data);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
+		free(included_line.data);
 
 	return filtered_line;
 }
-- 
2.43.0


From db8c067a3d8caa4bfed7cc8674c39c1dd9fed422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 31/59] fix: contexts in arrays are released with their array,
 not by rendering

---
 src/greshunkel.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 564ed9d..018b9e4 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -61,6 +61,14 @@ static greshunkel_ctext *_gshkl_init_child_context(const greshunkel_ctext *paren
 	return ctext;
 }
 
+/* Frees a context, but nothing of what was added to it. */
+static void _gshkl_free_child_context(greshunkel_ctext *ctext) {
+	vector_free(ctext->values);
+	vector_free(ctext->filter_functions);
+
+	free(ctext);
+}
+
 static inline int _gshkl_add_var_to_context(greshunkel_ctext *ctext, const greshunkel_tuple *new_tuple) {
 	if (!vector_append(ctext->values, new_tuple, sizeof(struct greshunkel_tuple)))
 		return 1;
@@ -229,6 +237,12 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		const greshunkel_tuple *item = vector_get(to_free->value.arr, i);
+		if (item->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)item->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
@@ -242,10 +256,7 @@ void gshkl_free_context(greshunkel_ctext *ctext) {
 			gshkl_free_context((struct greshunkel_ctext *)next->value.sub_ctext);
 		}
 	}
-	vector_free(ctext->values);
-	vector_free(ctext->filter_functions);
-
-	free(ctext);
+	_gshkl_free_child_context(ctext);
 }
 
 static line read_line(const char *buf) {
@@ -671,7 +682,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
-			gshkl_free_context(_temp_ctext);
+			/* The sub context belongs to the array, which may be looped over again. */
+			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
-- 
2.43.0


From a4d25b1b7c0f4a1a2eed885395de767815a0ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 32/59] fix: a filter without argument may be followed by other
 filters

---
 src/greshunkel.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 018b9e4..21d8094 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -360,10 +360,11 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
-			const size_t new_len = start_of_first_XxX - argument.start;
-
-			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			/* Render the argument out so we can pass it to the filter function. If the first
+			 * " XxX" comes before it, it belongs to a later filter and this one has none. */
+			char *rendered_argument = NULL;
+			if (start_of_first_XxX >= argument.start)
+				rendered_argument = strndup(argument.start, start_of_first_XxX - argument.start);
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From 7ee7a6b64d865fc2462171c304dd9194a230cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 33/59] fix: empty strings are false, strings that only start
 with FALSE are not

---
 src/greshunkel.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 21d8094..aadd1bc 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -715,7 +715,7 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 	}
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_falsey: is_string SF: %i", says_false);
 			return says_false;
 		} else if (is_loop) {
@@ -727,8 +727,8 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	m38_log_msg(LOG_DEBUG, "_is_falsey: is_null");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
@@ -746,7 +746,7 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_truthy: !is_null is_string SF: %i", !says_false);
 			return !says_false;
 		} else if (is_loop) {
-- 
2.43.0


From 6df7c7bce36fff607537d52e141682a83a419900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 34/59] fix: dotted conditionals stay within the bounds of
 their name

---
 src/greshunkel.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index aadd1bc..423b867 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -803,10 +803,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 		} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 			/* TODO: Check sub-context. */
-			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			const size_t context_name_len = sub_ctext_match - just_match_str;
+			char sub_context_name[context_name_len + 1];
+			memcpy(sub_context_name, just_match_str, context_name_len);
+			sub_context_name[context_name_len] = '\0';
+			const char *sub_item_name = sub_ctext_match + strlen(".");
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -880,10 +881,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		if (!(tuple = find_needle(ctext, just_match_str, 1))) {
 			if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				const size_t context_name_len = sub_ctext_match - just_match_str;
+				char sub_context_name[context_name_len + 1];
+				memcpy(sub_context_name, just_match_str, context_name_len);
+				sub_context_name[context_name_len] = '\0';
+				const char *sub_item_name = sub_ctext_match + strlen(".");
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -909,10 +911,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				should_render = 1;
 			} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				const size_t context_name_len = sub_ctext_match - just_match_str;
+				char sub_context_name[context_name_len + 1];
+				memcpy(sub_context_name, just_match_str, context_name_len);
+				sub_context_name[context_name_len] = '\0';
+				const char *sub_item_name = sub_ctext_match + strlen(".");
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From 9dffbcc10139b917bfd39539764d02fc5352c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 35/59] fix: a loop or conditional with an empty body ends at
 its own end

---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 423b867..ea1cdf6 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -635,10 +635,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -780,10 +778,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -861,10 +857,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From 6e02c48d3b5094abf7299dedb7336591c953f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 36/59] fix: names of arrays and sub contexts are always
 terminated

---
 src/greshunkel.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index ea1cdf6..cd30366 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -98,8 +98,7 @@ int gshkl_add_sub_context(greshunkel_ctext *parent, const char name[const], cons
 			.sub_ctext = child
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	return _gshkl_add_var_to_context(parent, &_stack_tuple);
 }
@@ -177,8 +176,7 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 			.arr = vector_new(sizeof(greshunkel_tuple), 16)
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	_gshkl_add_var_to_context(ctext, &_stack_tuple);
 	return _stack_tuple.value;
-- 
2.43.0


From 972974ca8017c208a25c9dc6c67c1d0b0b63062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 37/59] fix: dotted conditionals consider the first item of
 that name, as variables do

---
 src/greshunkel.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index cd30366..38ddc62 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -813,8 +813,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 					const size_t larger = strlen(_name) > strlen(sub_item_name) ?
 							strlen(_name) : strlen(sub_item_name);
 
-					if (strncmp(_name, sub_item_name, larger) == 0 && _is_falsey(sub_tuple)) {
-							should_render = 1;
+					if (strncmp(_name, sub_item_name, larger) == 0) {
+						should_render = _is_falsey(sub_tuple);
+						break;
 					}
 				}
 			}
@@ -889,9 +890,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 						const size_t larger = strlen(_name) > strlen(sub_item_name) ?
 								strlen(_name) : strlen(sub_item_name);
 
-						if (strncmp(_name, sub_item_name, larger) == 0 &&
-							_is_truthy(sub_tuple)) {
-								should_render = 1;
+						if (strncmp(_name, sub_item_name, larger) == 0) {
+							should_render = _is_truthy(sub_tuple);
+							break;
 						}
 					}
 				}
@@ -919,9 +920,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 						const size_t larger = strlen(_name) > strlen(sub_item_name) ?
 								strlen(_name) : strlen(sub_item_name);
 
-						if (strncmp(_name, sub_item_name, larger) == 0 &&
-							_is_truthy(sub_tuple)) {
-								should_render = 1;
+						if (strncmp(_name, sub_item_name, larger) == 0) {
+							should_render = _is_truthy(sub_tuple);
+							break;
 						}
 					}
 				}
-- 
2.43.0


From e20ea13939b221d1b41719c416c506a8bbc6e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 38/59] fix: report that the handled queue could not be opened

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..ecf42e9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -252,7 +252,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From 09c4021ae38f687828641c55bee9829f229dd605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 39/59] fix: the responder never waits for room in the queue it
 alone empties

---
 src/server.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index ecf42e9..1bc2979 100644
--- a/src/server.c
+++ b/src/server.c
@@ -113,12 +113,16 @@ static void *responder(void *arg) {
 		} else {
 			m38_handled_request *new_req = m38_send_response(req);
 			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
-			} else {
-				m38_log_msg(LOG_FUN, "Responder: Response sent.");
+				/* Nobody else takes anything from this queue, so never wait for room in it. If there
+				 * is none, go on with this response. */
+				const struct timespec no_wait = {0};
+				while (new_req != NULL &&
+					mq_timedsend(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0, &no_wait) == -1) {
+					new_req = m38_send_response(new_req);
+				}
 			}
+			if (new_req == NULL)
+				m38_log_msg(LOG_FUN, "Responder: Response sent.");
 		}
 	}
 
-- 
2.43.0


From 0c024fdc03ff7d56c07e29cf7206944678616e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 40/59] fix: send responses that can not be queued instead of
 losing them

---
 src/server.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 1bc2979..d01a671 100644
--- a/src/server.c
+++ b/src/server.c
@@ -167,8 +167,12 @@ static void *handler(void *arg) {
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 
 			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-			if (msg_size == -1)
+			if (msg_size == -1) {
 				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+				/* Nobody else is going to send it. */
+				while (req != NULL)
+					req = m38_send_response(req);
+			}
 		}
 
 		struct mq_attr attr = {0};
-- 
2.43.0


From 4cc40f71f12f8478175230c5a69f6b65b0c4d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 41/59] fix: transient failures of accept do not stop the
 server

---
 src/server.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index d01a671..74ce147 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,6 +5,7 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <mqueue.h>
 #include <netdb.h>
@@ -74,8 +75,19 @@ static void *acceptor(void *arg) {
 		int new_fd = accept(main_sock_fd, (struct sockaddr *)&their_addr, &sin_size);
 
 		if (new_fd == -1) {
+			const int accept_error = errno;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
-			return NULL;
+			/* Unless it's the socket itself there's nothing wrong with the next connection. */
+			if (accept_error == EBADF || accept_error == EFAULT || accept_error == EINVAL ||
+				accept_error == ENOTSOCK || accept_error == EOPNOTSUPP)
+				return NULL;
+			if (accept_error == EMFILE || accept_error == ENFILE ||
+				accept_error == ENOBUFS || accept_error == ENOMEM) {
+				/* Give the others some time to release what we need. */
+				const struct timespec a_while = { .tv_sec = 0, .tv_nsec = 10 * 1000 * 1000 };
+				nanosleep(&a_while, NULL);
+			}
+			continue;
 		}
 
 		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
-- 
2.43.0


From 8461843dd56cfb746791035244bb17e0e9faf0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 42/59] fix: an interrupted wait does not stop workers and
 responder

---
 src/server.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 74ce147..f359c1d 100644
--- a/src/server.c
+++ b/src/server.c
@@ -116,7 +116,9 @@ static void *responder(void *arg) {
 		m38_handled_request *req = NULL;
 		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
 			perror("Responder: ");
 			break;
@@ -168,7 +170,9 @@ static void *handler(void *arg) {
 		int new_fd = 0;
 		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
 			break;
 		} else if (new_fd == -1) {
-- 
2.43.0


From 33cb1b0a7a056a2e59e4f1b1cbfe8cc1b11d2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 43/59] fix: thread arguments outlive the loop that starts the
 threads

---
 src/server.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/server.c b/src/server.c
index f359c1d..11956e9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -33,12 +33,12 @@
 #define HANDLED_CONNECTION_QUEUE_NAME "/mothshqueue"
 
 typedef struct {
-	const int main_sock_fd;
+	int main_sock_fd;
 } acceptor_arg;
 
 typedef struct {
 	const m38_app *app;
-	const int worker_ident;
+	int worker_ident;
 } handler_arg;
 
 static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t size) {
@@ -58,8 +58,8 @@ static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t
 }
 static void *acceptor(void *arg) {
 	mqd_t accepted_socket_queue = 0;
-	const acceptor_arg *args = arg;
-	const int main_sock_fd = args->main_sock_fd;
+	const int main_sock_fd = ((acceptor_arg *)arg)->main_sock_fd;
+	free(arg);
 
 	accepted_socket_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, O_WRONLY, sizeof(int));
 	if (accepted_socket_queue == -1) {
@@ -148,9 +148,9 @@ static void *responder(void *arg) {
 static void *handler(void *arg) {
 	mqd_t accepted_socket_queue = -1;
 	mqd_t handled_queue = -1;
-	const handler_arg *args = arg;
-	const m38_app *app = args->app;
-	const int worker_ident = args->worker_ident;
+	const m38_app *app = ((handler_arg *)arg)->app;
+	const int worker_ident = ((handler_arg *)arg)->worker_ident;
+	free(arg);
 
 	accepted_socket_queue = mq_open(ACCEPTED_SOCKET_QUEUE_NAME, O_RDONLY);
 	if (accepted_socket_queue == -1) {
@@ -282,12 +282,15 @@ int m38_http_serve(m38_app *app) {
 		goto error;
 	}
 
-	acceptor_arg args = {
-		.main_sock_fd = *main_sock_fd,
-	};
+	/* Every thread gets (and frees) arguments of its own: there's no telling when it reads them. */
+	acceptor_arg *a_arg = calloc(1, sizeof(acceptor_arg));
+	if (a_arg == NULL)
+		goto error;
+	a_arg->main_sock_fd = *main_sock_fd;
 
-	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
+	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, a_arg) != 0) {
 		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
+		free(a_arg);
 		goto error;
 	}
 
@@ -302,11 +305,13 @@ int m38_http_serve(m38_app *app) {
 
 	int i;
 	for (i = 0; i < app->num_threads; i++) {
-		handler_arg args = {
-			.app = app,
-			.worker_ident = i
-		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		handler_arg *h_arg = calloc(1, sizeof(handler_arg));
+		if (h_arg == NULL)
+			goto error;
+		h_arg->app = app;
+		h_arg->worker_ident = i;
+		if (pthread_create(&handlers[i], NULL, handler, h_arg) != 0) {
+			free(h_arg);
 			goto error;
 		}
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
-- 
2.43.0


From 8f1fa3c65d15e1f832491c1d4556dcac0a74ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 44/59] fix: log calls of different threads do not share a
 broken-down time

---
 src/logging.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..22d95ac 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -31,8 +31,9 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 	/* Time stuff */
 	struct timeval timest;
 	gettimeofday(&timest, NULL);
-	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+	struct tm now;
+	localtime_r(&timest.tv_sec, &now);
+	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S", &now);
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0


From 138af4951a23876cbdde3e8944d54d8df2d2ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 45/59] fix: values of variables are not searched for further
 variables

---
 src/greshunkel.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 38ddc62..d1b8208 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -309,6 +309,18 @@ static int regexec_2_0_beta(const regex_t *preg, const char *string, size_t nmat
 	return 0;
 }
 
+/* The same, but leaves alone what comes before offset. */
+static int regexec_from(const regex_t *preg, const char *string, const size_t offset, size_t nmatch, match_t pmatch[]) {
+	unsigned int i;
+	if (regexec_2_0_beta(preg, string + offset, nmatch, pmatch) != 0)
+		return 1;
+	for (i = 0; i < nmatch; i++) {
+		pmatch[i].rm_so += offset;
+		pmatch[i].rm_eo += offset;
+	}
+	return 0;
+}
+
 /* finds a variable or filter by name, returns first matching item or NULL if none found
  * find_values == 1 uses ctext->values, otherwise, ctext->filter_functions */
 static const void *find_needle(const greshunkel_ctext *ctext, const char *needle, int find_values) {
@@ -435,9 +447,11 @@ _interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_l
 	line interpolated_line = {0};
 	line new_line_to_add = {0};
 	const line *operating_line = &current_line;
+	/* Values are not templates: go on behind them. */
+	size_t offset = 0;
 
 	match_t cvar_match[3];
-	while (regexec_2_0_beta(&all_regex->c_cvar_regex, operating_line->data, 3, cvar_match) == 0) {
+	while (regexec_from(&all_regex->c_cvar_regex, operating_line->data, offset, 3, cvar_match) == 0) {
 		const match_t inner_match = cvar_match[1];
 		const match_t subname_match = cvar_match[2];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
@@ -471,6 +485,7 @@ _interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_l
 					/* TODO: Only works on strings. */
 					assert(sub_tuple->type == GSHKL_STR);
 					vishnu(&new_line_to_add, cvar_match[0], sub_tuple->value.str, operating_line);
+					offset = cvar_match[0].rm_so + strlen(sub_tuple->value.str);
 					goto done;
 				}
 			}
@@ -566,8 +581,11 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 	const line *operating_line = &_operating_line;
 	assert(operating_line->data != NULL);
 
+	/* Values are not templates: go on behind them. */
+	size_t offset = 0;
+
 	match_t match[2] = {0};
-	while (regexec_2_0_beta(&all_regex->c_var_regex, operating_line->data, 2, match) == 0) {
+	while (regexec_from(&all_regex->c_var_regex, operating_line->data, offset, 2, match) == 0) {
 		const match_t inner_match = match[1];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
@@ -579,6 +597,7 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 		if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_STR) {
 			vishnu(&new_line_to_add, match[0], tuple->value.str, operating_line);
+			offset = match[0].rm_so + strlen(tuple->value.str);
 		} else {
 			/* Blow up if we had a variable that wasn't in the context. */
 			printf("Did not match a variable that needed to be matched.\n");
-- 
2.43.0


From 5a3f50c838ab22f66e041dd6b541b0700384c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 46/59] fix: results of filters are not filtered again

---
 src/greshunkel.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index d1b8208..0f1a07b 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -350,7 +350,9 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 	/* Now we match template filters: */
 	match_t filter_matches[3];
-	while (regexec_2_0_beta(&all_regex->c_filter_regex, operating_line->data, 3, filter_matches) == 0) {
+	/* What a filter returns is not filtered again: go on behind it. */
+	size_t offset = 0;
+	while (regexec_from(&all_regex->c_filter_regex, operating_line->data, offset, 3, filter_matches) == 0) {
 		match_t whole_match = filter_matches[0];
 		const char *start_of_first_XxX = strstr(whole_match.start, " XxX");
 		const char *end_of_first_XxX = start_of_first_XxX + strlen(" XxX");
@@ -380,6 +382,7 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 			char *filter_result = filter->filter_func(rendered_argument);
 
 			vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
+			offset = whole_match.rm_so + strlen(filter_result);
 
 			if (filter->clean_up != NULL)
 				filter->clean_up(filter_result);
@@ -401,7 +404,8 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 	/* No arguments matching. */
 	match_t filter_matches_no_args[2];
-	while (regexec_2_0_beta(&all_regex->c_filter_no_args_regex, operating_line->data, 2, filter_matches_no_args) == 0) {
+	offset = 0;
+	while (regexec_from(&all_regex->c_filter_no_args_regex, operating_line->data, offset, 2, filter_matches_no_args) == 0) {
 		match_t whole_match = filter_matches_no_args[0];
 		const char *start_of_first_XxX = strstr(whole_match.start, " XxX");
 		const char *end_of_first_XxX = start_of_first_XxX + strlen(" XxX");
@@ -422,6 +426,7 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 			char *filter_result = filter->filter_func(NULL);
 
 			vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
+			offset = whole_match.rm_so + strlen(filter_result);
 
 			if (filter->clean_up != NULL)
 				filter->clean_up(filter_result);
-- 
2.43.0


From 6b88eda551e03f2692ac1aba1927b4b694598296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 47/59] fix: results of filters are not filtered again, with or
 without arguments

---
 src/greshunkel.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 0f1a07b..28a8d1e 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -402,9 +402,8 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		memset(filter_matches, 0, sizeof(filter_matches));
 	}
 
-	/* No arguments matching. */
+	/* No arguments matching. Only the last filter of a line can be left. */
 	match_t filter_matches_no_args[2];
-	offset = 0;
 	while (regexec_from(&all_regex->c_filter_no_args_regex, operating_line->data, offset, 2, filter_matches_no_args) == 0) {
 		match_t whole_match = filter_matches_no_args[0];
 		const char *start_of_first_XxX = strstr(whole_match.start, " XxX");
-- 
2.43.0


From ef0029dda65140b25e22181b30357268591a72b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 48/59] fix: what a file includes is rendered only once

---
 src/greshunkel.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 28a8d1e..1f6e63d 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -528,7 +528,8 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 	assert(operating_line->data != NULL);
 
 	match_t match[2] = {0};
-	while (regexec_2_0_beta(&all_regex->c_include_regex, operating_line->data, 2, match) == 0) {
+	/* What was included is rendered already, so don't look for includes in it. */
+	if (regexec_2_0_beta(&all_regex->c_include_regex, operating_line->data, 2, match) == 0) {
 		const match_t inner_match = match[1];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
@@ -563,13 +564,9 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
 		free(template_file);
 
-		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
 		interpolated_line.data = rendered_piece.data;
 		operating_line = &interpolated_line;
-
-		/* Set the next regex check after this one. */
-		memset(match, 0, sizeof(match));
 	}
 
 	return *operating_line;
@@ -624,8 +621,11 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != operating_line->data && operating_line->data != current_line.data)
-		free(operating_line->data);
+	if (included_line.data != operating_line->data) {
+		if (operating_line->data != current_line.data)
+			free(operating_line->data);
+		return included_line;
+	}
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
 	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
-- 
2.43.0


From 0ca3ebd3fd4d0c3a72af90c92d525d722ecce80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 49/59] fix: an interrupted wait for room in the queue does not
 drop the connection

---
 src/server.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 11956e9..b077653 100644
--- a/src/server.c
+++ b/src/server.c
@@ -90,7 +90,11 @@ static void *acceptor(void *arg) {
 			continue;
 		}
 
-		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		ssize_t msg_size = -1;
+		do {
+			msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		} while (msg_size == -1 && errno == EINTR);
+
 		if (msg_size == -1) {
 			/* We want to continue from this error. Maybe the queue is full or something. */
 			m38_log_msg(LOG_ERR, "Acceptor: Could not queue new accepted connection.");
-- 
2.43.0


From 30273d876ebc99889ed5ff22d3c34322a4345fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:03 +0000
Subject: [PATCH 50/59] fix: the Python binding hands whole pointers to the
 library

---
 python/greshunkel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..01bd1f8 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -13,12 +13,19 @@ GshklFilterFunc = CFUNCTYPE(c_char_p, c_char_p)
 
 lib38moths = cdll.LoadLibrary("lib38moths.so")
 
+# Everything that takes or returns a pointer has to say so, or it is cut down to an int.
+lib38moths.gshkl_init_context.argtypes = []
 lib38moths.gshkl_init_context.restype = c_void_p
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, c_void_p]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +47,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From afa27d0643917801e9d8f40cfed6a0254188aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 51/59] fix: the Python binding renders all bytes of templates
 that are not ASCII

---
 python/greshunkel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 01bd1f8..53e22cb 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -72,6 +72,6 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        encoded_template = self.template.encode()
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, c_char_p(encoded_template), len(encoded_template), None)
         return ret_c_str.decode()
-- 
2.43.0


From b2ed5e0ef4ecf599750e518419ee5a080c10bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 52/59] fix: the Python binding keeps filters alive as long as
 their context

---
 python/greshunkel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 53e22cb..240c43f 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -28,7 +28,8 @@ lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_v
 lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, c_void_p]
 lib38moths.gshkl_render.restype = c_char_p
 
-def _add_item_to_greshunkel_loop(ctext, loop, value):
+# Filters have to live as long as the context that refers to them: they are kept in filters.
+def _add_item_to_greshunkel_loop(ctext, loop, value, filters):
     if isinstance(value, str):
         lib38moths.gshkl_add_string_to_loop(byref(loop), c_char_p(value.encode()))
     elif isinstance(value, int):
@@ -41,9 +42,9 @@ def _add_item_to_greshunkel_loop(ctext, loop, value):
         sub_ctext = lib38moths.gshkl_init_context()
         lib38moths.gshkl_add_sub_context_to_loop(byref(loop), sub_ctext)
         for sub_key, sub_value in value.items():
-            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value)
+            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value, filters)
 
-def _add_item_to_greshunkel_context(ctext, key, value):
+def _add_item_to_greshunkel_context(ctext, key, value, filters):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
@@ -52,20 +53,22 @@ def _add_item_to_greshunkel_context(ctext, key, value):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
         for subitem in value:
-            _add_item_to_greshunkel_loop(ctext, new_loop, subitem)
+            _add_item_to_greshunkel_loop(ctext, new_loop, subitem, filters)
     elif hasattr(value, '__call__'):
         lib38moths.gshkl_add_filter(ctext, c_char_p(key.encode()), value, None)
+        filters.append(value)
     elif isinstance(value, dict):
         sub_ctext = lib38moths.gshkl_init_context()
         lib38moths.gshkl_add_sub_context(ctext, c_char_p(key.encode()), sub_ctext)
         for sub_key, sub_value in value.items():
-            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value)
+            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value, filters)
 
 class Context(object):
     def __init__(self, context_dict):
         self.gshkl_ctext = lib38moths.gshkl_init_context()
+        self.filters = []
         for key, value in context_dict.items():
-            _add_item_to_greshunkel_context(self.gshkl_ctext, key, value)
+            _add_item_to_greshunkel_context(self.gshkl_ctext, key, value, self.filters)
 
 class Template(object):
     def __init__(self, template):
-- 
2.43.0


From 99838901371cead3cd817bfb4e6adfbaffc4307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 53/59] fix: the Python binding releases contexts and rendered
 text

---
 python/greshunkel.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 240c43f..6d7455f 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -1,6 +1,6 @@
 from ctypes import cdll, c_char_p, c_size_t, c_void_p, Union,\
                    LittleEndianStructure, c_char, POINTER,\
-                   c_int, byref, CFUNCTYPE, create_string_buffer
+                   c_int, byref, CFUNCTYPE, create_string_buffer, string_at
 
 class greshunkel_var(Union):
     _fields_ = [
@@ -26,7 +26,11 @@ lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
 lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, c_void_p]
-lib38moths.gshkl_render.restype = c_char_p
+lib38moths.gshkl_render.restype = c_void_p
+lib38moths.gshkl_filter_cleanup.argtypes = [c_void_p]
+lib38moths.gshkl_filter_cleanup.restype = None
+lib38moths.gshkl_free_context.argtypes = [c_void_p]
+lib38moths.gshkl_free_context.restype = None
 
 # Filters have to live as long as the context that refers to them: they are kept in filters.
 def _add_item_to_greshunkel_loop(ctext, loop, value, filters):
@@ -70,6 +74,9 @@ class Context(object):
         for key, value in context_dict.items():
             _add_item_to_greshunkel_context(self.gshkl_ctext, key, value, self.filters)
 
+    def __del__(self):
+        lib38moths.gshkl_free_context(self.gshkl_ctext)
+
 class Template(object):
     def __init__(self, template):
         self.template = template
@@ -77,4 +84,8 @@ class Template(object):
     def render(self, context):
         encoded_template = self.template.encode()
         ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, c_char_p(encoded_template), len(encoded_template), None)
-        return ret_c_str.decode()
+        try:
+            return string_at(ret_c_str).decode()
+        finally:
+            # All this does is free() what it's given.
+            lib38moths.gshkl_filter_cleanup(ret_c_str)
-- 
2.43.0


From 3396f9b273cd0fbb399a7752ddc7c9af9df406a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:00 +0000
Subject: [PATCH 54/59] fix: descriptor 0 is a listening socket like any other

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index b077653..24b51f2 100644
--- a/src/server.c
+++ b/src/server.c
@@ -212,7 +212,7 @@ static void *handler(void *arg) {
 static inline int create_socket(const int port) {
 	int rc = -1;
 	int sock_fd = socket(PF_INET, SOCK_STREAM, 0);
-	if (sock_fd <= 0) {
+	if (sock_fd < 0) {
 		m38_log_msg(LOG_ERR, "Could not create main socket.");
 		goto error;
 	}
-- 
2.43.0


From 88ac53280e34b37ca662308bdf952d7eadae5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:04 +0000
Subject: [PATCH 55/59] fix: files that are opened as descriptor 0 are served

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index f216e8c..dfb877c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -193,7 +193,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		return 404;
 	}
 	int fd = open(file_path, O_RDONLY);
-	if (fd <= 0) {
+	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
 		perror("mmap_file_ol: could not open file");
-- 
2.43.0


From a32ac1c19b167be9ba0346aa26cbf8c847b346aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 56/59] fix: compare the whole key of a dictionary entry,
 whatever its bytes

---
 src/simple_sparsehash.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index c9f3da1..4dd1fe7 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -275,7 +275,7 @@ static int _create_and_insert_new_bucket(
 	memcpy(copied_value, value, vlen);
 
 	copied_key = copied_value + vlen;
-	strncpy(copied_key, key, klen);
+	memcpy(copied_key, key, klen);
 
 	struct sparse_bucket bct = {
 		.key = copied_key,
@@ -383,8 +383,9 @@ int sparse_dict_set(struct sparse_dict *dict,
 		} else {
 			/* We found a bucket. Check to see if it has the same key as we do. */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			/* Keys may contain NUL bytes, and different keys may have the same hash. */
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
 				void *existing_val = existing_bucket->val;
@@ -440,8 +441,9 @@ void *sparse_dict_get(struct sparse_dict *dict, const char *key,
 			 * The value we pulled from the underlying array could be anything.
 			 */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			/* Keys may contain NUL bytes, and different keys may have the same hash. */
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				if (outsize)
 					memcpy(outsize, &existing_bucket->vlen, sizeof(existing_bucket->vlen));
 
-- 
2.43.0


From b43f71e25a836de47b57514be83d292c7276818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 57/59] fix: log the size of responses of 2 GB and more

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index dfb877c..74c2fcf 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -315,7 +315,7 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	char *visitor_ip_addr = m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP");
 	char *user_agent = m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent");
 
-	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %i \"%s\"",
+	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %zu \"%s\"",
 		visitor_ip_addr == NULL ? "NOIP" : visitor_ip_addr,
 		request->verb,
 		request->resource,
-- 
2.43.0


From 09c87bea82ce11edc0072e22e4bf756fc80e604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 58/59] fix: python: render values that are cut in the middle
 of a character

---
 python/greshunkel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 6d7455f..d3d08bc 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -85,7 +85,8 @@ class Template(object):
         encoded_template = self.template.encode()
         ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, c_char_p(encoded_template), len(encoded_template), None)
         try:
-            return string_at(ret_c_str).decode()
+            # Values are cut after 512 bytes, possibly in the middle of a character.
+            return string_at(ret_c_str).decode(errors='replace')
         finally:
             # All this does is free() what it's given.
             lib38moths.gshkl_filter_cleanup(ret_c_str)
-- 
2.43.0


From bc949df12d0bb31edb9d4fa6ce4b397572313849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 59/59] fix: a blank filter argument is empty also if another
 call follows

---
 src/greshunkel.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1f6e63d..d064bb0 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -373,10 +373,13 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
 			/* Render the argument out so we can pass it to the filter function. If the first
-			 * " XxX" comes before it, it belongs to a later filter and this one has none. */
+			 * " XxX" comes before it, it belongs to a later filter. Then this one has none, or
+			 * a blank one. */
 			char *rendered_argument = NULL;
 			if (start_of_first_XxX >= argument.start)
 				rendered_argument = strndup(argument.start, start_of_first_XxX - argument.start);
+			else if (start_of_first_XxX > function_name.start + function_name.len)
+				rendered_argument = strdup("");
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0

