From d0dc041686b9d5e23998800179fea430cdaee7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 01/59] fix: crc32c: do not load misaligned words through
 aligned pointer types

---
 libmy/crc32c-sse42.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libmy/crc32c-sse42.c b/libmy/crc32c-sse42.c
index a37fe34..2d308f9 100644
--- a/libmy/crc32c-sse42.c
+++ b/libmy/crc32c-sse42.c
@@ -119,6 +119,11 @@ my_asm_crc32_u8(uint32_t crc, uint8_t value) {
 	return crc;
 }
 
+/* The input may start at any address. */
+typedef uint64_t __attribute__((aligned(1), may_alias)) unaligned_u64;
+typedef uint32_t __attribute__((aligned(1), may_alias)) unaligned_u32;
+typedef uint16_t __attribute__((aligned(1), may_alias)) unaligned_u16;
+
 uint32_t
 my_crc32c_sse42(const uint8_t *buf, size_t len)
 {
@@ -126,7 +131,7 @@ my_crc32c_sse42(const uint8_t *buf, size_t len)
 	uint64_t crc64bit = 0xFFFFFFFF;
 
 	for (size_t i = 0; i < len / sizeof(uint64_t); i++) {
-		crc64bit = my_asm_crc32_u64(crc64bit, *(uint64_t *) p);
+		crc64bit = my_asm_crc32_u64(crc64bit, *(const unaligned_u64 *) p);
 		p += sizeof(uint64_t);
 	}
 
@@ -136,18 +141,18 @@ my_crc32c_sse42(const uint8_t *buf, size_t len)
 	case 7:
 		crc32bit = my_asm_crc32_u8(crc32bit, *p++);
 	case 6:
-		crc32bit = my_asm_crc32_u16(crc32bit, *(uint16_t *) p);
+		crc32bit = my_asm_crc32_u16(crc32bit, *(const unaligned_u16 *) p);
 		p += 2;
 	case 4:
-		crc32bit = my_asm_crc32_u32(crc32bit, *(uint32_t *) p);
+		crc32bit = my_asm_crc32_u32(crc32bit, *(const unaligned_u32 *) p);
 		break;
 	case 3:
 		crc32bit = my_asm_crc32_u8(crc32bit, *p++);
 	case 2:
-		crc32bit = my_asm_crc32_u16(crc32bit, *(uint16_t *) p);
+		crc32bit = my_asm_crc32_u16(crc32bit, *(const unaligned_u16 *) p);
 		break;
 	case 5:
-		crc32bit = my_asm_crc32_u32(crc32bit, *(uint32_t *) p);
+		crc32bit = my_asm_crc32_u32(crc32bit, *(const unaligned_u32 *) p);
 		p += 4;
 	case 1:
 		crc32bit = my_asm_crc32_u8(crc32bit, *p);
-- 
2.43.0


From da768927236360dbefc59a0410601322033b1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 02/59] fix: base32_encode: a trailing group of two bytes needs
 four characters

---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..f07c52d 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -92,7 +92,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From 12a6d73ac349e829bd5951a7d1a4aa0424ccad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 03/59] fix: base64_decode_value: do not read one element past
 the table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 574449b68f5587a85736247487889b25ca9462d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 04/59] fix: varint_decode32: do not shift into the sign bit

---
 libmy/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/varint.c b/libmy/varint.c
index 6969274..c1c3d68 100644
--- a/libmy/varint.c
+++ b/libmy/varint.c
@@ -154,7 +154,7 @@ varint_decode32(const uint8_t *data, uint32_t *value)
 			if (len > 3) {
 				val |= ((data[3] & 0x7f) << 21);
 				if (len > 4)
-					val |= (data[4] << 28);
+					val |= ((uint32_t) data[4] << 28);
 			}
 		}
 	}
-- 
2.43.0


From 4b0c36a6c25d0a4faccce9f285729a3c78cac038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 05/59] fix: ip_arith: zero-length prefixes must not shift by
 the word size

---
 libmy/ip_arith.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..baeb8c9 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -28,13 +28,29 @@
 #include <stdint.h>
 #include <string.h>
 
+/* host order mask of the host part of an IPv4 prefix */
+static inline uint32_t
+ip4_hostmask(unsigned prefix_len) {
+	if (prefix_len == 0)
+		return UINT32_MAX;
+	return ((1ULL << (32 - prefix_len)) - 1);
+}
+
+/* host order mask with the 'n' high bits set, n < 64 */
+static inline uint64_t
+ip6_highmask(unsigned n) {
+	if (n == 0)
+		return 0;
+	return UINT64_MAX << (64 - n);
+}
+
 /* given big endian IPv4 prefix in 'address'/'prefix_len',
  * write lowest IP address ("network address") into 'out' */
 static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(~ip4_hostmask(prefix_len));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +60,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32(ip4_hostmask(prefix_len));
 	memcpy(out, &addr, 4);
 }
 
@@ -65,12 +81,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(ip6_highmask(prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(ip6_highmask(prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +103,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(~ip6_highmask(prefix_len));
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(~ip6_highmask(prefix_len));
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 3d838093494de9c5faf422ad263094f294cf99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 06/59] fix: heap_get: an empty heap has no element

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 6e5b1c40615e2c4e4b062e6071584ab179afef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 07/59] fix: string_replace: do not loop forever on an empty
 pattern

---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From 1568e96c1bbdcbe1c7d88f1e783441881b3e1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 08/59] fix: my_fileset_reload: a file listed twice is one file

It was loaded twice when new, and when already loaded its pointer was shared
by two entries and later unloaded twice.
---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..8d07c86 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+listed(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (path_exists(fname) && !listed(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From ed049bd53ebe8e68a7b7f01484c46f92a99497c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 09/59] fix: my_fileset_reload: do not forget an update when
 fopen fails

The new inode and mtime were already recorded, so the update was never read.
---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 8d07c86..3fb4223 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* not read yet: the next reload has to try again */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From 8c9b9c4e7c117294535c8cc0922c033986d7d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 10/59] fix: my_rate: keep the adjusted rate above zero

The adjusted rate of a slow limiter is truncated down to zero; its tick
period is then infinite, which disables the limit altogether.
---
 libmy/my_rate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..a26412e 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -87,6 +87,10 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	/* calculate a new, adjusted rate based on this ratio */
 	r->adj_rate *= ratio;
 
+	/* at zero, the period would be infinite and the limit would be lifted */
+	if (r->adj_rate == 0)
+		r->adj_rate = 1;
+
 	/* calculate a new tick period based on the adjusted rate */
 	const double period = 1.0 / (r->adj_rate + 0.0);
 	my_timespec_from_double(period, &r->period);
-- 
2.43.0


From 0824a174c19af5246154db36601d132fb47261e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 11/59] fix: argv: do not read past the last entry of the
 option array

Using the last option made check_or() look at the entry after ARGV_LAST
before testing for ARGV_LAST itself.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..218c3f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 59a4b89af65ad903d46cc2ef11129127dd7d6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 12/59] fix: argv_long_was_used: compare names, not pointers

---
 libmy/argv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 218c3f7..9418e39 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3408,7 +3408,7 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL && strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 6145ea5f68111c321dbbb2dd607879c23bac355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 13/59] fix: argv: grow the queue of options that wait for a
 value

It was sized by the number of arguments, but one argument can hold many
options and argument files add more: the queue was overrun.
---
 libmy/argv.c | 101 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 64 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 9418e39..58668ce 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2162,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2256,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2269,49 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void queue_option
+ *
+ * DESCRIPTION:
+ *
+ * Append an option which waits for its value to our option queue.  A
+ * single argument can hold many options, and argument files add more,
+ * so the queue grows as needed.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * queue_list_p <-> Our option queue for storing options to arguments.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * match_p -> Entry to append.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if there is no
+ * memory for the entry.
+ */
+static	void	queue_option(argv_t ***queue_list_p, int *queue_head_p,
+			     argv_t *match_p, int *okay_bp)
+{
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    argv_t	**new_list;
+    
+    new_list = (argv_t **)realloc(*queue_list_p, sizeof(argv_t *) *
+				  (*queue_head_p + ARRAY_INCR));
+    if (new_list == NULL) {
+      *okay_bp = ARGV_FALSE;
+      return;
+    }
+    *queue_list_p = new_list;
+  }
+  (*queue_list_p)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2334,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2343,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2399,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    queue_option(queue_list_p, queue_head_p, match_p, okay_bp);
   }
 }
 
@@ -2421,7 +2463,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2475,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2567,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2578,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  queue_option(queue_list_p, queue_head_p, NULL, okay_bp);
 	}
 	continue;
       }
@@ -2708,7 +2749,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2782,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2792,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3165,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3227,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
-
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
   
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3238,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3262,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 47f7b75e51f2b5cb0761e898b6689dbe021f2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 14/59] fix: argv: a negative number after --argv-file is not a
 value

The file argument is queued as NULL, which was dereferenced.
---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 58668ce..24ee2c3 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2755,7 +2755,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	     * find out that we can use it below
 	     */
 	    
-	    switch (ARGV_TYPE(match_p->ar_type)) {
+	    /* NOTE: the file argument is queued as NULL */
+	    switch (match_p == NULL ? 0 : ARGV_TYPE(match_p->ar_type)) {
 	      
 	    case ARGV_SHORT:
 	    case ARGV_INT:
-- 
2.43.0


From 1fb10425433dfc0245f5c1d452076c03b70508a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 15/59] fix: zonefile: do not override (and leak) an explicit
 $ORIGIN

After a $ORIGIN line ahead of the SOA record, relative names were completed
with the owner of the SOA record instead.
---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..2b4e921 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -57,7 +57,9 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	/* an explicit $ORIGIN takes precedence */
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From 5b7faf804811ab053d4ab1a4576461c00afaf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 16/59] fix: zonefile_get_serial: work after the SOA record was
 handed out

zonefile_read() gives the SOA record away, after which a NULL record was
dereferenced.
---
 libmy/zonefile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2b4e921..7bea015 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -19,6 +19,7 @@ struct zonefile {
 	ldns_rdf	*origin;
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
+	uint32_t	serial;
 	uint32_t	ttl;
 	size_t		count;
 };
@@ -60,6 +61,7 @@ out:
 	/* an explicit $ORIGIN takes precedence */
 	if (z->origin == NULL)
 		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
@@ -133,9 +135,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 9cccc10d1234ebfe9119a931a4c514ab26840137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 17/59] fix: zonefile: quote the name of a compressed file for
 the shell

Names with blanks or shell characters could not be read, or ran commands.
---
 libmy/zonefile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 7bea015..121fafe 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -77,9 +77,16 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 2] == 'g' &&
 	    fname[len_fname - 1] == 'z')
 	{
+		/* quoted: the name is an argument, not shell code */
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat -- '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 246aed54eb87d210c6f936a984529febb72dcfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 18/59] fix: zonefile_init_fname: do not leak when the file
 cannot be opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 121fafe..942f3e3 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -94,8 +94,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 475f8cf2ef59e9ae363fd6bbcc267179fa82d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 19/59] fix: zonefile: do not loop forever on a file without
 records

At the end of the file ldns keeps reporting an empty line.
---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 942f3e3..5116d76 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -31,6 +31,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From 67015acdf8945db777058e122f4050cbde0abab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 20/59] fix: triplet_unpack, pair_unpack: do not read past the
 end of the value

---
 dnstable/dnstable-private.h | 25 +++++++++++++++++++++++++
 dnstable/triplet.c          | 35 ++++++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..10cd1a9 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -75,6 +75,31 @@
 # error Neither CLOCK_MONOTONIC nor CLOCK_MONOTONIC_COARSE are available.
 #endif
 
+/*
+ * Bounded variants of mtbl_varint_decode{32,64}(): never read at or past 'end'.
+ * Return the number of bytes consumed, or 0 if there is no complete varint.
+ */
+
+static inline size_t
+varint_decode32_bounded(const uint8_t *p, const uint8_t *end, uint32_t *value)
+{
+	size_t len = mtbl_varint_length_packed(p, end - p);
+
+	if (len == 0 || mtbl_varint_decode32(p, value) != len)
+		return (0);
+	return (len);
+}
+
+static inline size_t
+varint_decode64_bounded(const uint8_t *p, const uint8_t *end, uint64_t *value)
+{
+	size_t len = mtbl_varint_length_packed(p, end - p);
+
+	if (len == 0 || mtbl_varint_decode64(p, value) != len)
+		return (0);
+	return (len);
+}
+
 /* triplet */
 
 size_t
diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..0d87c90 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -29,13 +29,17 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
-	if (bytes_read == len_buf)
-		return (dnstable_res_success);
-	return (dnstable_res_failure);
+	const uint8_t *p = buf;
+	const uint8_t *end = buf + len_buf;
+	uint64_t *vals[] = { val1, val2, val3 };
+
+	for (size_t i = 0; i < sizeof(vals) / sizeof(vals[0]); i++) {
+		size_t len = varint_decode64_bounded(p, end, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		p += len;
+	}
+	return (p == end ? dnstable_res_success : dnstable_res_failure);
 }
 
 size_t
@@ -50,10 +54,15 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	if (bytes_read == len_buf)
-		return (dnstable_res_success);
-	return (dnstable_res_failure);
+	const uint8_t *p = buf;
+	const uint8_t *end = buf + len_buf;
+	uint64_t *vals[] = { val1, val2 };
+
+	for (size_t i = 0; i < sizeof(vals) / sizeof(vals[0]); i++) {
+		size_t len = varint_decode64_bounded(p, end, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		p += len;
+	}
+	return (p == end ? dnstable_res_success : dnstable_res_failure);
 }
-- 
2.43.0


From 627d33a3fddb779a7d1410a01eb407f1323f76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 21/59] fix: dnstable_entry_decode: do not read varints past
 the end of the key or value

---
 dnstable/entry.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..20231d4 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -631,7 +631,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *p = buf;
 	const uint8_t *end = buf + len_buf;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name;
+	size_t len_name, len_varint;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -646,9 +646,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len_varint = varint_decode32_bounded(p, end, &e->rrtype);
+	if (len_varint == 0)
 		return (dnstable_res_failure);
+	p += len_varint;
 
 	/* bailiwick */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -667,11 +668,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
-		if (len_rdata > USHRT_MAX)
+		len_varint = varint_decode32_bounded(p, end, &len_rdata);
+		if (len_varint == 0 || len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
+		p += len_varint;
 
-		if (p + len_rdata > end)
+		if (len_rdata > (size_t)(end - p))
 			return (dnstable_res_failure);
 
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_rdata);
@@ -723,7 +725,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *data;
 	const uint8_t *slice;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name, len_slice;
+	size_t len_name, len_slice, len_varint;
 	wdns_rdata_t *rdata;
 
 	if (len_buf < sizeof(uint16_t))
@@ -735,15 +737,16 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	len_data = le16toh(len_data);
 
 	/* data */
+	if (len_data > end - p)
+		return (dnstable_res_failure);
 	data = p;
 	p += len_data;
-	if (p > end)
-		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len_varint = varint_decode32_bounded(p, end, &e->rrtype);
+	if (len_varint == 0)
 		return (dnstable_res_failure);
+	p += len_varint;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -803,7 +806,7 @@ decode_version(struct dnstable_entry *e,
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
+	len = varint_decode32_bounded(val, val + len_val, &e->version);
 	if (len == len_val)
 		return (dnstable_res_success);
 
-- 
2.43.0


From 9cd45ef296ea3393e9e56da728c77cf3f55c0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 22/59] fix: query filters: do not read varints past the end of
 the key

---
 dnstable/query.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..e5e7005 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -769,7 +769,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (varint_decode32_bounded(&key[len+1], &key[len_key], &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -805,7 +805,8 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (varint_decode32_bounded(&key[len+1], &key[len_key], &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -823,7 +824,7 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 {
 	struct query_iter *it = user;
 	struct dnstable_query *q = it->query;
-	size_t len, len_name;
+	size_t len, len_name, len_rrtype;
 	uint32_t rrtype;
 
 	*match = false;
@@ -833,9 +834,10 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
-	len += mtbl_varint_decode32(&key[len], &rrtype);
-	if (len >= len_key)
+	len_rrtype = varint_decode32_bounded(&key[len], &key[len_key], &rrtype);
+	if (len_rrtype == 0)
 		return (mtbl_res_success);
+	len += len_rrtype;
 
 	if (wdns_len_uname(&key[len], &key[len_key], &len_name) != wdns_res_success)
 		return (mtbl_res_success);
-- 
2.43.0


From d7fa01e7dc994e3e3185017850c2c452d33a7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 23/59] fix: dnstable_entry_decode: reject names longer than a
 name can be

---
 dnstable/entry.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20231d4..1b93dcc 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -634,7 +634,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	size_t len_name, len_varint;
 
 	/* rrname */
-	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
+	if (wdns_len_uname(p, end, &len_name) != wdns_res_success || len_name > sizeof(name))
 		return (dnstable_res_failure);
 	if (wdns_reverse_name(p, len_name, name) != wdns_res_success)
 		return (dnstable_res_failure);
@@ -652,7 +652,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	p += len_varint;
 
 	/* bailiwick */
-	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
+	if (wdns_len_uname(p, end, &len_name) != wdns_res_success || len_name > sizeof(name))
 		return (dnstable_res_failure);
 	if (wdns_reverse_name(p, len_name, name) != wdns_res_success)
 		return (dnstable_res_failure);
@@ -749,7 +749,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	p += len_varint;
 
 	/* rrname */
-	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
+	if (wdns_len_uname(p, end, &len_name) != wdns_res_success || len_name > sizeof(name))
 		return (dnstable_res_failure);
 	if (wdns_reverse_name(p, len_name, name) != wdns_res_success)
 		return (dnstable_res_failure);
-- 
2.43.0


From 47504bbaff9762a119a82751132717fbd8bf326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 24/59] fix: dnstable_entry_decode: a name entry must hold
 exactly one name

---
 dnstable/entry.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 1b93dcc..0835886 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -687,9 +687,21 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	return (dnstable_res_success);
 }
 
+/* Is the whole buffer exactly one uncompressed name? */
+static bool
+is_name(const uint8_t *buf, size_t len_buf)
+{
+	size_t len_name;
+
+	return (wdns_len_uname(buf, buf + len_buf, &len_name) == wdns_res_success &&
+		len_name == len_buf && len_name <= WDNS_MAXLEN_NAME);
+}
+
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	if (!is_name(buf, len_buf))
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
@@ -703,6 +715,8 @@ decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_b
 static dnstable_res
 decode_rdata_name_rev(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	if (!is_name(buf, len_buf))
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	if (wdns_reverse_name(buf, len_buf, e->name.data) != wdns_res_success)
-- 
2.43.0


From cae8cf3bdc9ad2fad78035aedd1e434fa39947c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 25/59] fix: dnstable_entry_decode: do not present an unknown
 key type as an RRset

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 0835886..471161f 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -868,6 +868,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From 19577ed834f898b1c1a6d9b38855c8ea94ae5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 26/59] fix: dnstable_entry_get_rdata: reject the index just
 past the last rdata

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 471161f..96a66f0 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1016,7 +1016,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From 8b7bb903046e2d80dfe0d1b688843348451a2c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 27/59] fix: rrtype_union_check: do not read the byte past a
 bitmap block

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 96a66f0..29cac35 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1219,7 +1219,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 85cb31ee539cca3a8fadb5a146108b0245b313cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 28/59] fix: rrtype unions: no misaligned 16 bit loads

---
 dnstable/entry.c | 4 ++--
 dnstable/merge.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 29cac35..c2b065b 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1125,7 +1125,7 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_set->rrtypes[0] = (uint16_t)*rrtype_map;
 		return 1;
 	} else if (rrtype_map_size == 2) {
-		rrtype_set->rrtypes[0] = (uint16_t)le16toh(*(uint16_t*)rrtype_map);
+		rrtype_set->rrtypes[0] = (uint16_t)(rrtype_map[0] | (rrtype_map[1] << 8));
 		return 1;
 	}
 
@@ -1192,7 +1192,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 	} else if (rrtype_map_size == (signed)1) {
 		return (rrtype == (uint16_t)*rrtype_map);
 	} else if (rrtype_map_size == (signed)2) {
-		return (rrtype == (uint16_t)le16toh(*(uint16_t*)rrtype_map));
+		return (rrtype == (uint16_t)(rrtype_map[0] | (rrtype_map[1] << 8)));
 	}
 
 	/* must be a bitmap */
diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..2fca611 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -96,8 +96,8 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 		n_rrtypes1 = 1;
 		n_rrtypes2 = 1;
 	} else if (len_val0 == 2 && len_val1 == 2) {
-		rrtype_set_1.rrtypes[0] = (uint16_t)le16toh(*(uint16_t*)val0);
-		rrtype_set_2.rrtypes[0] = (uint16_t)le16toh(*(uint16_t*)val1);
+		rrtype_set_1.rrtypes[0] = (uint16_t)(val0[0] | (val0[1] << 8));
+		rrtype_set_2.rrtypes[0] = (uint16_t)(val1[0] | (val1[1] << 8));
 		n_rrtypes1 = 1;
 		n_rrtypes2 = 1;
 	} else {
-- 
2.43.0


From 23f2bceeecf26153d183114ed2e1aa5a1beb3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 29/59] fix: merge_rrtype_bitmaps: a large union must not abort

---
 dnstable/merge.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index 2fca611..3f4c9c9 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	uint8_t result_data[256 * (2 + 32)];	/* 256 windows: number, length, bitmap */
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -131,7 +131,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +160,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From b14cbe468cd4b2e343eeb48f4cf70ad5e5c5b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 30/59] fix: rrtype unions: a union may hold all 65536 types

---
 dnstable/dnstable-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 10cd1a9..ef47c55 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -143,7 +143,7 @@ dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
  * possible RRtypes.  As an example, "boxun.com.cn." in 2017 had 111
  * unique RRtypes defined, many not standardized.
  */
-#define MAX_RRTYPES_MAPPABLE 65535
+#define MAX_RRTYPES_MAPPABLE 65536
 
 typedef struct {
 	uint16_t rrtypes[MAX_RRTYPES_MAPPABLE];
-- 
2.43.0


From 3d8cc11f649aa599e6c2baef7da8f1d2c1279b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 31/59] fix: remove_mtbl: do not leak the keys of an iterator

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From 15d245cddec16e91551aae0c2a0988f4d15e4b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 32/59] fix: dnstable_query_init: accept
 DNSTABLE_QUERY_TYPE_SOURCE_INFO

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index e5e7005..220fe15 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -165,6 +165,7 @@ dnstable_query_init(dnstable_query_type q_type)
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_IP ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW ||
+	       q_type == DNSTABLE_QUERY_TYPE_SOURCE_INFO ||
 	       q_type == DNSTABLE_QUERY_TYPE_TIME_RANGE ||
 	       q_type == DNSTABLE_QUERY_TYPE_VERSION);
 	struct dnstable_query *q = my_calloc(1, sizeof(*q));
-- 
2.43.0


From 5947152de411703ed552d8265483a5460ef6cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 33/59] fix: dnstable_reader_init_setfile: the entry iterators
 need a source

---
 dnstable/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..1e02d02 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -52,6 +52,7 @@ dnstable_reader_init_setfile(const char *setfile)
 	struct mtbl_fileset_options *fopt = mtbl_fileset_options_init();
 	mtbl_fileset_options_set_merge_func(fopt, dnstable_merge_func, NULL);
 	r->fs = mtbl_fileset_init(setfile, fopt);
+	r->source = mtbl_fileset_source(r->fs);
 	mtbl_fileset_options_destroy(&fopt);
 
 	return (r);
-- 
2.43.0


From b15dd47305725be107300273e8d22585ae91c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 34/59] fix: IP prefix queries: reject a negative or missing
 prefix length

---
 dnstable/query.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 220fe15..e1b6fd0 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -296,9 +296,10 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 
 	errno = 0;
 	plen = strtol(prefix_length, &endptr, 10);
-	if (errno != 0 || *endptr != '\0') goto out;
+	if (errno != 0 || endptr == prefix_length || *endptr != '\0') goto out;
 
-	if ((len_ip == 4 && plen > 32) ||
+	if (plen < 0 ||
+	    (len_ip == 4 && plen > 32) ||
 	    (len_ip == 16 && plen > 128))
 	{
 		res = dnstable_res_failure;
-- 
2.43.0


From a4e21e1485bbe40a1c9ac1c2fb46816e867b2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 35/59] fix: raw rdata queries: forget the length along with
 the rdata

---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e1b6fd0..abdf123 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -240,9 +240,14 @@ static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
 	my_free(q->rdata);
+	q->len_rdata = 0;
 	if (data == NULL)
 		return (dnstable_res_success);
-	return hex_decode(data, &q->rdata, &q->len_rdata);
+	if (!hex_decode(data, &q->rdata, &q->len_rdata)) {
+		q->len_rdata = 0;
+		return (dnstable_res_failure);
+	}
+	return (dnstable_res_success);
 }
 
 static dnstable_res
-- 
2.43.0


From 9b77e33838fb31cc900bebc2b036534ee50e2a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 36/59] fix: the offset of a query applies to each iterator
 made from it

---
 dnstable/query.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index abdf123..10b105e 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -91,6 +91,7 @@ struct query_iter {
 	struct mtbl_fileset	*fs_no_merge;	/* fileset for un-aggregated queries */
 
 	struct timespec		deadline;	/* derived from query->timeout */
+	uint64_t		offset;		/* entries still to skip, initially query->offset */
 	jmp_buf			to_env;
 	/* Basically the same, but each applies to either source or source_index */
 	struct timeout_mtbl	*timeout, *timeout_index;
@@ -951,12 +952,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1805,6 +1805,7 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
 	if (q->offset > 0) {
+		it->offset = q->offset;
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From c3c4c5a1d3cb6df968456466e510c4cf9ba060f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 37/59] fix: dnstable_query_set_rrtype: do not break an IP
 query

---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 10b105e..e7517be 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -420,6 +420,11 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 {
 	uint16_t rrtype;
 
+	/* The rrtype of an IP query is that of the address family of its data. */
+	if (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP &&
+	    (s_rrtype == NULL || wdns_str_to_rrtype(s_rrtype) != 0))
+		return (dnstable_res_success);
+
 	if (s_rrtype == NULL) {
 		q->do_rrtype = false;
 		return (dnstable_res_success);
@@ -429,7 +434,7 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 	    strcasecmp(s_rrtype, "TYPE255") == 0 || /* ANY == TYPE255 */
 	    strcasecmp(s_rrtype, "ANY-DNSSEC") == 0)
 	{
-		q->do_rrtype = false;
+		q->do_rrtype = (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP && q->do_rrtype);
 		return (dnstable_res_success);
 	}
 
-- 
2.43.0


From 2735b739f0eb883d5b3e22d67b84fa040c81d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 38/59] fix: filter_rrtype_ip: do not read past the end of the
 key

---
 dnstable/query.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e7517be..8275b86 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1150,8 +1150,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		ubuf_append(seek_key, key, key_prefix_len);
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
-		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key), key,
+				    len_key < ubuf_size(seek_key) ? len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
@@ -1223,7 +1223,12 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 
 		for (;;) {
-			uint8_t llen = key[ubuf_size(seek_key)];
+			uint8_t llen;
+
+			/* The last label ended where the key does. Move to next key. */
+			if (len_key <= ubuf_size(seek_key))
+				return (mtbl_res_success);
+			llen = key[ubuf_size(seek_key)];
 
 			/*
 			 * Note: the ENTRY_TYPE_RDATA has 5 fields. We enter
-- 
2.43.0


From 2268a40a8345822e7dbfb48814f5e8e6fc74da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 39/59] fix: rdata name queries: an unsliced entry does not
 begin with the name

---
 dnstable/query.c | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 8275b86..3f6b13b 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -791,11 +791,29 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 	return(mtbl_res_success);
 }
 
+/*
+ * Is the rdata entry, whose owner name begins at key[pos], a sliced one, which
+ * has the leading part of the rdata between the owner name and the rdata length?
+ */
+static bool
+rdata_is_sliced(const uint8_t *key, size_t len_key, size_t pos)
+{
+	const size_t end = len_key - sizeof(uint16_t);
+	size_t len_name;
+
+	return (pos < end &&
+		wdns_len_uname(&key[pos], &key[end], &len_name) == wdns_res_success &&
+		pos + len_name < end);
+}
+
 /*
  * filter_rrtype_rdata_name passes rdata entries with types whose
  * rdata format begin with a domain name, or a domain name at a
  * fixed offset used for "slice" encoding. This prevents rdata name
- * searches from returning non-name (e.g. NULL, IPv6) records.
+ * searches from returning non-name (e.g. NULL, IPv6) records. An entry of a
+ * type that has something before the name (e.g. the preference of an MX) only
+ * begins with the name when sliced. If the query has an rrtype, then only
+ * entries of that type pass.
  */
 static mtbl_res
 filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
@@ -803,11 +821,12 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 			 const uint8_t *val, size_t len_val,
 			 bool *match)
 {
-	size_t len;
+	struct query_iter *it = user;
+	struct dnstable_query *q = it->query;
+	size_t len, len_rrtype;
 	uint16_t rdlen;
 	uint32_t rrtype;
 
-	(void)user;
 	*match = false;
 	if (len_key < sizeof(rdlen))
 		return (mtbl_res_success);
@@ -818,9 +837,24 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	if (varint_decode32_bounded(&key[len+1], &key[len_key], &rrtype) == 0)
+	len_rrtype = varint_decode32_bounded(&key[len+1], &key[len_key], &rrtype);
+	if (len_rrtype == 0)
 		return (mtbl_res_success);
 
+	switch(rrtype) {
+	case WDNS_TYPE_MX:
+	case WDNS_TYPE_SRV:
+	case WDNS_TYPE_SVCB:
+	case WDNS_TYPE_HTTPS:
+		if (!rdata_is_sliced(key, len_key, len + 1 + len_rrtype))
+			return (mtbl_res_success);
+	}
+
+	if (q->do_rrtype) {
+		*match = (rrtype == q->rrtype);
+		return (mtbl_res_success);
+	}
+
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
 		*match = true;
@@ -1609,11 +1643,7 @@ static struct dnstable_iter *
 query_init_rdata_name(struct query_iter *it)
 {
 
-	if (it->query->do_rrtype) {
-		it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype, it);
-	} else {
-		it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype_rdata_name, it);
-	}
+	it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype_rdata_name, it);
 	it->source = filter_mtbl_source(it->filter_rrtype);
 
 	it->key = ubuf_init(64);
-- 
2.43.0


From 9bd6dc767c0e6ae649480ae7fabcf4d493f997be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 40/59] fix: do not abort on a time that RFC 3339 cannot
 express

---
 dnstable/entry.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index c2b065b..40d490e 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -98,6 +98,13 @@ fmt_rfc3339(const struct tm *src, char *dst)
 	dst[19] = 'Z';
 }
 
+/* RFC 3339 has years from 0000 to 9999 only. */
+static bool
+has_rfc3339(const struct tm *tm)
+{
+	return (tm != NULL && tm->tm_year >= -1900 && tm->tm_year <= 9999 - 1900);
+}
+
 static void
 fmt_rfc3339_time(ubuf *u, uint64_t v)
 {
@@ -106,7 +113,10 @@ fmt_rfc3339_time(ubuf *u, uint64_t v)
 	char ts[]="0000-00-00T00:00:00Z";
 
 	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	if (!has_rfc3339(r)) {
+		append_json_value_int(u, v);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
@@ -125,7 +135,10 @@ fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 	char ts[] = "0000-00-00T00:00:00Z";
 
 	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	if (!has_rfc3339(r)) {
+		JSON_NUM_APPEND(u, v);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
-- 
2.43.0


From 5248db0ce0fbe6742867b206cbab8f23d5a8eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 41/59] fix: dnstable_lookup refuses dates before 1970

parse_time() converted a negative timegm() result to uint64_t, so that such
a date was taken for one in the far future. dnstable_lookup(1) says that
"1970-01-01T00:00:00Z" or earlier is not accepted.
---
 src/dnstable_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..5204bec 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -211,7 +211,8 @@ parse_time(const char *s)
 	    ((endp = strptime(s, "%F %T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%TZ", &tt)) && (*endp == '\0'))) {
-		return (uint64_t)timegm(&tt);
+		time_t t = timegm(&tt);
+		return (t > 0) ? (uint64_t)t : 0;
 	}
 
 	clock_gettime(CLOCK_REALTIME, &now);
-- 
2.43.0


From 16a5f5b75b2515c040325f9d1f0f21cce7c7dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 42/59] fix: dnstable_lookup: no overflow in relative times

Multiplying a large number of weeks, or adding up several large intervals,
overflowed a signed integer (undefined behavior, and a wrong time instead of
the error for a time before 1970).
---
 src/dnstable_lookup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index 5204bec..a7db449 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -231,7 +231,7 @@ parse_time(const char *s)
 	/* Parse 10w3d4h */
 	while(*s) {
 		ll = strtoll(s, &endp, 10);
-		if (ll <= 0)
+		if (ll <= 0 || ll > now.tv_sec)
 			return 0;
 		switch(*endp) {
 		case 'W':
@@ -254,6 +254,8 @@ parse_time(const char *s)
 			return 0;
 		}
 		total += ll;
+		if (total > now.tv_sec)
+			return 0;
 		s = endp;
 		if (*s) s++;
 	}
-- 
2.43.0


From 4e6ceec48af7a084c6d3378af86fac16e168ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 43/59] fix: dnstable_lookup -O accepts offsets of more than 31
 bits

The offset is a 64 bit number, but it was parsed with atoi(): 4294967297
skipped one result instead of 4294967297.
---
 src/dnstable_lookup.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index a7db449..38452a3 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -385,8 +385,9 @@ main(int argc, char **argv)
 			g_aggregate = false;
 			break;
 		case 'O':
-			g_offset = atoi(optarg);
-			if (g_offset <= 0)
+			errno = 0;
+			g_offset = strtoll(optarg, NULL, 10);
+			if (g_offset <= 0 || errno != 0)
 				usage();
 			break;
 		case -1:
-- 
2.43.0


From e16818774176ef5a2933b4150057e1b62a279399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 44/59] fix: dnstable_dump without a section is an error, not
 an abort

Without one of the section options the iterator stayed NULL and the assertion
in main() failed.
---
 src/dnstable_dump.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dnstable_dump.c b/src/dnstable_dump.c
index 7a9357c..6f7af77 100644
--- a/src/dnstable_dump.c
+++ b/src/dnstable_dump.c
@@ -181,6 +181,13 @@ main(int argc, char **argv)
 		}
 	}
 
+	if (!(g_rrset || g_rdata || g_rrset_names || g_rdata_names ||
+	      g_time_range || g_version || g_source_info))
+	{
+		fprintf(stderr, "dnstable_dump: a section of the file to dump must be specified\n");
+		exit(EXIT_FAILURE);
+	}
+
 	m_reader = mtbl_reader_init(g_fname, NULL);
 	if (m_reader == NULL) {
 		perror("mtbl_reader_init");
-- 
2.43.0


From 040285d0963f6575effd0a2b83a5566b709e5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 45/59] fix: dnstable_merge passes file names with spaces on
 unchanged

An unquoted $@ split such names (and expanded patterns in them).
---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 7df27e8..910144f 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -8,4 +8,4 @@ if [ -z "$1" -o -z "$2" ]; then
     exit 1
 fi
 
-exec mtbl_merge $@
+exec mtbl_merge "$@"
-- 
2.43.0


From d83b950c7044eda24fd24ffb8e1f739ba2965bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 46/59] fix: raw rdata of a key with an oversized rrtype
 overran the varint buffer

The decoder takes the 32 bits a key holds for an rrtype, and the JSON
rendering encodes them into a buffer for 16.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 40d490e..ef54434 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -441,7 +441,7 @@ dnstable_entry_to_json_fmt(const struct dnstable_entry *e,
 
 				/* append the rrtype - 16 bit rrtype will be at most 3 bytes of varint */
 				uint8_t rrtype[3];
-				size_t rrtype_str_len = mtbl_varint_encode32(rrtype, e->rrtype);
+				size_t rrtype_str_len = mtbl_varint_encode32(rrtype, (uint16_t)e->rrtype);
 
 				fmt_hex_str(rbuf, rrtype, rrtype_str_len);
 				ubuf_cterm(rbuf);
-- 
2.43.0


From 52ec60b66b2014fceaebebf9d9a3bb436c73a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 47/59] Revert "fix: IP prefix queries: reject a negative or
 missing prefix length"

This reverts commit b15dd47305725be107300273e8d22585ae91c905.
---
 dnstable/query.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 3f6b13b..180410d 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -302,10 +302,9 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 
 	errno = 0;
 	plen = strtol(prefix_length, &endptr, 10);
-	if (errno != 0 || endptr == prefix_length || *endptr != '\0') goto out;
+	if (errno != 0 || *endptr != '\0') goto out;
 
-	if (plen < 0 ||
-	    (len_ip == 4 && plen > 32) ||
+	if ((len_ip == 4 && plen > 32) ||
 	    (len_ip == 16 && plen > 128))
 	{
 		res = dnstable_res_failure;
-- 
2.43.0


From e5b260400e6c6f0b7afd970a01d24f6d837acabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 48/59] fix: raw rdata queries: do not append rdata that is not
 set

After the data of a raw query was refused or cleared there is a null
pointer in its place, which must not be passed to memcpy.
---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 180410d..eed71f0 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1708,7 +1708,8 @@ query_init_rdata_raw(struct query_iter *it)
 	ubuf_add(it->key, ENTRY_TYPE_RDATA);
 
 	/* key: rdata */
-	ubuf_append(it->key, it->query->rdata, it->query->len_rdata);
+	if (it->query->rdata != NULL)
+		ubuf_append(it->key, it->query->rdata, it->query->len_rdata);
 
 	/*
 	 * Note: even though this function does not use it->query->do_rrtype
-- 
2.43.0


From fcb00a00832ff602f7a939cf3336fc8e787a4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 49/59] fix: my_rate: an interrupted absolute sleep let events
 through early

---
 libmy/my_rate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index a26412e..6c00c62 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -173,7 +173,8 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From 33a66433c1cc90c1a920cba89fd6600242cf6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 50/59] fix: my_timespec_from_double: seconds beyond the range
 of int

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index bc3afd3..6c6a9b7 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -80,7 +80,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ts->tv_sec) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From b443517b85aafbb658b2b8dd2749a9979a5075a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 51/59] fix: argv: unsigned values above the signed maximum

---
 libmy/argv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 24ee2c3..2136cf6 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1315,7 +1315,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_INT:
-    *(unsigned int *)var = atoi(arg);
+    *(unsigned int *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_LONG:
@@ -1323,7 +1323,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_LONG:
-    *(unsigned long *)var = atol(arg);
+    *(unsigned long *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_FLOAT:
@@ -1390,7 +1390,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       unsigned long	val;
       
       /* take initial integer point */
-      val = (unsigned long)atol(arg);
+      val = strtoul(arg, NULL, 10);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
-- 
2.43.0


From 52718010b856137c707cd48f55f9b89bdc3fe962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 52/59] fix: argv_value_string: the sign bit of a binary
 argument was tested with an undefined shift

---
 libmy/argv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 2136cf6..a0f8976 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1579,7 +1579,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
 	*bin_p++ = 'b';
 	
 	for (bit_c = sizeof(int) * BITS_IN_BYTE - 1; bit_c >= 0; bit_c--) {
-	  bit = *(int *)var & (1 << bit_c);
+	  bit = (*(unsigned int *)var >> bit_c) & 1U;
 	  
 	  if (bit == 0) {
 	    if (first_b) {
-- 
2.43.0


From d10d4ceece5ceeb371ffd418ce35269f61df68a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 53/59] fix: argv_value_string: a zero hex or size argument was
 written past a one-byte buffer

---
 libmy/argv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index a0f8976..59f55f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1622,7 +1622,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_HEX:
     if (*(int *)var == 0) {
-      (void)strcpy(buf, "0");
+      LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
     }
     else {
       LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%#x (%d)",
@@ -1641,7 +1641,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       long	morf, val = *(long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
@@ -1668,7 +1668,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       unsigned long	morf, val = *(unsigned long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-- 
2.43.0


From 199277387b6a6ecbb6d5ca2bec4ca1f32f894a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 54/59] fix: argv_value_string: unsigned sizes above LONG_MAX
 were shown as negative

---
 libmy/argv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 59f55f7..583e5f9 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1672,18 +1672,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From 9ffea2706e64d33a1b90cc4d44b9bf4c3d82bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 55/59] fix: atomic_64.h: operands and results of 64-bit
 counters were cut to int

---
 libmy/atomic_64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..84fd1f0 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -36,7 +36,7 @@ typedef struct {
  * @param v pointer of type atomic64_t
  */
 static inline void
-atomic64_add(int i, atomic64_t *v) {
+atomic64_add(int64_t i, atomic64_t *v) {
          (void)__sync_add_and_fetch(&v->counter, i);
 }
 
@@ -48,7 +48,7 @@ atomic64_add(int i, atomic64_t *v) {
  * Atomically subtracts @i from @v.
  */
 static inline void
-atomic64_sub(int i, atomic64_t *v) {
+atomic64_sub(int64_t i, atomic64_t *v) {
         (void)__sync_sub_and_fetch(&v->counter, i);
 }
 
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
@@ -72,7 +72,7 @@ atomic64_zero(atomic64_t *v) {
  * other cases.
  */
 static inline int
-atomic64_sub_and_test(int i, atomic64_t *v) {
+atomic64_sub_and_test(int64_t i, atomic64_t *v) {
         return !(__sync_sub_and_fetch(&v->counter, i));
 }
 
@@ -135,7 +135,7 @@ atomic64_inc_and_test(atomic64_t *v) {
  * result is greater than or equal to zero.
  */
 static inline int
-atomic64_add_negative(int i, atomic64_t *v) {
+atomic64_add_negative(int64_t i, atomic64_t *v) {
        return (__sync_add_and_fetch(&v->counter, i) < 0);
 }
 
-- 
2.43.0


From 03be5b15d5832b7b2a88bf1e6e41e8ad6b98cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 56/59] fix: query iterators: lifting the timeout of a running
 iterator jumped into a dead stack frame

An iterator made with a timeout or deadline checks it->deadline in the
timeout stage for as long as it lives. When the caller unset both limits
between two steps, the deadline was no longer renewed and setjmp() was no
longer called, so the stage kept timing out and its longjmp() went to the
frame of an earlier call.
---
 dnstable/query.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index eed71f0..18eb594 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1009,7 +1009,13 @@ query_iter_set_deadline(struct query_iter *it)
 	struct dnstable_query *q = it->query;
 
 	if (!q->do_timeout) {
-		it->deadline = q->deadline;
+		if (q->do_deadline) {
+			it->deadline = q->deadline;
+		} else {
+			/* Both were unset after the iterator was made: no limit. */
+			it->deadline.tv_sec = sizeof(time_t) < sizeof(int64_t) ? INT32_MAX : INT64_MAX;
+			it->deadline.tv_nsec = 0;
+		}
 		return;
 	}
 
@@ -1024,9 +1030,8 @@ static dnstable_res
 query_iter_next(void *clos, struct dnstable_entry **ent)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
@@ -1379,11 +1384,10 @@ static dnstable_res
 query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t type_byte)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 	const uint8_t *key, *val;
 	size_t len_key, len_val;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
-- 
2.43.0


From 9a9587f63f6ed54110b40439555ffa84f9ec8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 57/59] fix: stop on a failed allocation in the query stages
 instead of using NULL

---
 dnstable/query_mtbl.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index e4717c3..1af42c7 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -251,7 +251,7 @@ ljoin_source_iter_common(void *impl, source_iter_func source_iter,
 			 const uint8_t *key2, size_t len_key2)
 {
 	struct ljoin_mtbl *j = impl;
-	struct ljoin_mtbl_iter *it = calloc(1, sizeof(*it));
+	struct ljoin_mtbl_iter *it = my_calloc(1, sizeof(*it));
 	it->join = j;
 	it->iter_left = source_iter(j->left, key, len_key, key2, len_key2);
 	it->iter_right = source_iter(j->right, key, len_key, key2, len_key2);
@@ -271,7 +271,7 @@ struct ljoin_mtbl *
 ljoin_mtbl_init(const struct mtbl_source *left, const struct mtbl_source *right,
 		mtbl_merge_func merge_fn, void *merge_clos)
 {
-	struct ljoin_mtbl *j = calloc(1, sizeof(*j));
+	struct ljoin_mtbl *j = my_calloc(1, sizeof(*j));
 
 	assert(j != NULL);
 	j->left = left;
@@ -405,7 +405,7 @@ filter_source_iter_common(void *impl, source_iter_func source_iter,
 			  const uint8_t *key2, size_t len_key2)
 {
 	struct filter_mtbl *filter = impl;
-	struct filter_mtbl_iter *fit = calloc(1, sizeof(*fit));
+	struct filter_mtbl_iter *fit = my_calloc(1, sizeof(*fit));
 
 	fit->filter = filter;
 	fit->it = source_iter(filter->upstream, key, len_key, key2, len_key2);
@@ -428,7 +428,7 @@ DECL_SOURCE_FREE(filter)		/* filter_source_free() */
 struct filter_mtbl *
 filter_mtbl_init(const struct mtbl_source *upstream, filter_mtbl_func filter, void *filter_data)
 {
-	struct filter_mtbl *f = calloc(1, sizeof(*f));
+	struct filter_mtbl *f = my_calloc(1, sizeof(*f));
 	f->filter_func = filter;
 	f->filter_data = filter_data;
 	f->upstream = upstream;
@@ -529,7 +529,7 @@ timeout_source_iter_common(void *impl, source_iter_func source_iter,
 			   const uint8_t *key2, size_t len_key2)
 {
 	struct timeout_mtbl *timeout = impl;
-	struct timeout_mtbl_iter *to_it = calloc(1, sizeof(*to_it));
+	struct timeout_mtbl_iter *to_it = my_calloc(1, sizeof(*to_it));
 
 	to_it->it = source_iter(timeout->upstream, key, len_key, key2, len_key2);
 	to_it->timeout = timeout;
@@ -547,7 +547,7 @@ DECL_SOURCE_FREE(timeout)		/* timeout_source_free() */
 struct timeout_mtbl *
 timeout_mtbl_init(const struct mtbl_source *upstream, const struct timespec *deadline, jmp_buf *env)
 {
-	struct timeout_mtbl *timeout = calloc(1, sizeof(*timeout));
+	struct timeout_mtbl *timeout = my_calloc(1, sizeof(*timeout));
 	timeout->deadline = deadline;
 	timeout->expire_env = env;
 	timeout->upstream = upstream;
@@ -739,7 +739,7 @@ remove_source_iter_common(void *impl, source_iter_func source_iter,
 			  const uint8_t *key2, size_t len_key2)
 {
 	struct remove_mtbl *rm = impl;
-	struct remove_iter *rit = calloc(1, sizeof(*rit));
+	struct remove_iter *rit = my_calloc(1, sizeof(*rit));
 	unsigned i;
 
 	rit->rm = rm;
@@ -747,17 +747,17 @@ remove_source_iter_common(void *impl, source_iter_func source_iter,
 	rit->it = source_iter(rm->upstream, key, len_key, key2, len_key2);
 	if (len_key > 0) {
 		rit->len_key = len_key;
-		rit->key = malloc(len_key);
+		rit->key = my_malloc(len_key);
 		memcpy(rit->key, key, len_key);
 	}
 	if (len_key2 > 0) {
 		rit->len_key2 = len_key2;
-		rit->key2 = malloc(len_key2);
+		rit->key2 = my_malloc(len_key2);
 		memcpy(rit->key2, key2, len_key2);
 	}
 
 	rit->nentries = source_vec_size(rm->rm_sources);
-	rit->entries = calloc(rit->nentries, sizeof(*rit->entries));
+	rit->entries = my_calloc(rit->nentries, sizeof(*rit->entries));
 
 	ISC_LIST_INIT(rit->list);
 	for (i = 0; i < rit->nentries; i++) {
@@ -777,7 +777,7 @@ DECL_SOURCE_FREE(remove)		/* remove_source_free() */
 struct remove_mtbl *
 remove_mtbl_init(void)
 {
-	struct remove_mtbl *rm = calloc(1, sizeof(*rm));
+	struct remove_mtbl *rm = my_calloc(1, sizeof(*rm));
 	rm->rm_sources = source_vec_init(1);
 	rm->source = SOURCE_INIT_HELPER(remove, rm);
 	return rm;
-- 
2.43.0


From 3ab291fb977e4a6c29eb70f9218df1ff48319988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 58/59] fix: keep the entries of an argument array when it
 cannot be enlarged

---
 libmy/argv.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 583e5f9..00b6544 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1220,18 +1220,19 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
   }
   
   if (type & ARGV_FLAG_ARRAY) {
+    void	*entries;
+    
     arr_p = (argv_array_t *)var;
+    entries = arr_p->aa_entries;
     
     if (arr_p->aa_entry_n == 0) {
-      arr_p->aa_entries = (char *)malloc(ARRAY_INCR *size);
+      entries = malloc(ARRAY_INCR *size);
     }
     else if (arr_p->aa_entry_n % ARRAY_INCR == 0) {
-      arr_p->aa_entries =
-	(char *)realloc(arr_p->aa_entries, (arr_p->aa_entry_n + ARRAY_INCR) *
-			size);
+      entries = realloc(entries, (arr_p->aa_entry_n + ARRAY_INCR) * size);
     }
     
-    if (arr_p->aa_entries == NULL) {
+    if (entries == NULL) {
       if (argv_error_stream != NULL) {
 	(void)fprintf(argv_error_stream,
 		      "%s: memory error during argument processing\n",
@@ -1243,6 +1244,8 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       return ERROR;
     }
     
+    /* kept until here, so that argv_cleanup() finds the old entries */
+    arr_p->aa_entries = entries;
     var = (char *)(arr_p->aa_entries) + arr_p->aa_entry_n * size;
     arr_p->aa_entry_n++;
   }
-- 
2.43.0


From 174c0dcaf2e8f313194a44e1bc6136a5ce44d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:20 +0000
Subject: [PATCH 59/59] fix: say why hexadecimal data, an address range or a
 version name is refused

---
 dnstable/query.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 18eb594..5cef03d 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -246,6 +246,7 @@ query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 		return (dnstable_res_success);
 	if (!hex_decode(data, &q->rdata, &q->len_rdata)) {
 		q->len_rdata = 0;
+		query_set_err(q, "unable to parse hexadecimal string");
 		return (dnstable_res_failure);
 	}
 	return (dnstable_res_success);
@@ -259,9 +260,13 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	char *addr1, *addr2;
 	char *saveptr = NULL;
 
-	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL) goto out;
-	if ((addr2 = strtok_r(NULL, "-", &saveptr)) == NULL) goto out;
-	if (strtok_r(NULL, "-", &saveptr) != NULL) goto out;
+	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL ||
+	    (addr2 = strtok_r(NULL, "-", &saveptr)) == NULL ||
+	    strtok_r(NULL, "-", &saveptr) != NULL)
+	{
+		query_set_err(q, "unable to parse IP range");
+		goto out;
+	}
 
 	if (!query_load_address(q, addr1, q->ip1, &q->len_ip1)) goto out;
 	if (!query_load_address(q, addr2, q->ip2, &q->len_ip2)) goto out;
@@ -380,8 +385,10 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 		return (dnstable_res_success);
 
 	res = dnstable_entry_type_from_string(&type, data);
-	if (res != dnstable_res_success)
+	if (res != dnstable_res_success) {
+		query_set_err(q, "unknown version type");
 		return res;
+	}
 
 	switch(type) {
 	case ENTRY_TYPE_RRSET:
@@ -392,6 +399,7 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 		q->v_type = (uint8_t)type;
 		return (dnstable_res_success);
 	default:
+		query_set_err(q, "unknown version type");
 		return (dnstable_res_failure);
 	}
 }
-- 
2.43.0

