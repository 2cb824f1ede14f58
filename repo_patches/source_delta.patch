From 1287289501533faf7f63803387d4810edca72ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 01/18] fix: varint: never read past the encoding, bound decode
 by source length

---
 src/varint.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..66c34c4 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -61,15 +61,14 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
+		if (offset >= src_len || offset >= val_len_max)
+			return -EPROTO;
+
 		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
 		more = src[offset] & 0x80;
 
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
-- 
2.43.0


From 5756cf45287e55dd5c5aebf547cf56be652e18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 02/18] fix: timetools: normalize equal nanoseconds in diff,
 avoid overflow in add_us

---
 src/timetools.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..6beefc2 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
@@ -454,7 +454,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	struct timespec tmp;
+
+	if (!ts || !res)
+		return -EINVAL;
+
+	/* Split the delta, delta * 1000 may not fit in an int64_t */
+	tmp = *ts;
+	tmp.tv_sec += delta / 1000000;
+	return time_timespec_add_ns(&tmp, (delta % 1000000) * 1000, res);
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From 4fdc2930f7a8505d8049a46a2a7b861181616b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 03/18] fix: timetools: report the distance of equal times in
 diff_in_range

---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 6beefc2..a4b7fbe 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From 7aa830755a847e7fc91b4dd783ec5e7b80b9cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 04/18] fix: dynmbox: set close-on-exec on both ends of the
 pipe

---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..24e0cd3 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -256,10 +256,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes CLOEXEC and NONBLOCK flags */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From c1f04429bbaf1cf7b3e20893ce08fbafca343047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 05/18] fix: dynmbox: notify within the critical section that
 queues the message

---
 src/dynmbox.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 24e0cd3..7bfc6d3 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -511,11 +511,12 @@ int dynmbox_push(struct dynmbox *box,
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Write one byte into pipe/socket to signal mbox is readable */
+	/* Write one byte into pipe/socket to signal mbox is readable; while
+	 * locked, so that a concurrent peek always finds it */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -579,11 +580,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
 	/* Signal consumers */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
-- 
2.43.0


From 7b35c0067aeeac4a69dfb2ded58b99479ea1b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 06/18] fix: dynmbox: do not overflow the blocking push timeout

---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 7bfc6d3..e8ca67c 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -559,7 +559,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				     &ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From 5175f4f1f27f78c91fe289da545a76c6a3f767c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 07/18] fix: random: use distinct bits for each character of
 the last base64 blob

---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From 391097634b3ea16b88e2a15a24b575e3e4260976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 08/18] fix: systimetools: refuse months outside of the year

A text with month 00 or above 12 (or a broken-down time with tm_mon
outside of 0..11) indexed the table of cumulative days out of bounds.
---
 src/systimetools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..b6f1a26 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -162,6 +162,8 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	ret = parse_num(mon_s, mon);
 	if (ret < 0)
 		return ret;
+	if (*mon < 1 || *mon > 12)
+		return -EINVAL;
 	ret = parse_num(mday_s, mday);
 	if (ret < 0)
 		return ret;
@@ -716,6 +718,9 @@ int time_local_from_tm(const struct tm *tm, uint64_t *epoch_sec,
 	if (!epoch_sec && !utc_offset_sec)
 		return -EINVAL;
 
+	if (tm->tm_mon < 0 || tm->tm_mon > 11)
+		return -EINVAL;
+
 #ifdef _WIN32
 	if (epoch_sec)
 		*epoch_sec = tm_mkepoch_local(tm, 0);
-- 
2.43.0


From 067ee8ea4ca64b471446fdd1a8a896ac98210f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 09/18] fix: systimetools: do not overflow on the opposite of
 INT32_MIN

Formatting a time with an offset of INT32_MIN seconds computed
-1 * INT32_MIN in 32 bits.
---
 src/systimetools.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index b6f1a26..145bfe0 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -743,6 +743,7 @@ int time_local_format(uint64_t epoch_sec, int32_t utc_offset_sec,
 	time_t t;
 	struct tm tm;
 	int gmtoff_sign, gmtoff_hour, gmtoff_min;
+	int64_t gmtoff_abs;
 	if (!s || !n)
 		return -EINVAL;
 
@@ -753,8 +754,9 @@ int time_local_format(uint64_t epoch_sec, int32_t utc_offset_sec,
 
 	/* Time zone offset */
 	gmtoff_sign = (utc_offset_sec < 0) ? -1 : 1;
-	gmtoff_hour = gmtoff_sign * utc_offset_sec / (60 * 60);
-	gmtoff_min = (gmtoff_sign * utc_offset_sec / 60) % 60;
+	gmtoff_abs = (int64_t)gmtoff_sign * utc_offset_sec;
+	gmtoff_hour = gmtoff_abs / (60 * 60);
+	gmtoff_min = (gmtoff_abs / 60) % 60;
 
 	switch (fmt) {
 	case TIME_FMT_ISO8601_SHORT:
-- 
2.43.0


From 0738449e720e0585ef480d300ca6faa663927d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 10/18] fix: report a failed file sync from
 sync_file_and_folder and refuse NULL

---
 src/synctools.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..0699247 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -87,15 +87,18 @@ int sync_folder(const char *folderpath)
 
 int sync_file_and_folder(const char *filepath)
 {
-	int ret;
+	int ret, file_ret;
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
-	ret = sync_file(filepath);
-	if (ret < 0)
-		ULOGW("sync_file(%s) failed : %d(%s)", filepath, ret,
-				strerror(-ret));
+	file_ret = sync_file(filepath);
+	if (file_ret < 0)
+		ULOGW("sync_file(%s) failed : %d(%s)", filepath, file_ret,
+				strerror(-file_ret));
 
 	/* determine parent folder */
 	folderpath = strdup(filepath);
@@ -120,5 +123,5 @@ int sync_file_and_folder(const char *filepath)
 
 out:
 	free(folderpath);
-	return ret;
+	return file_ret < 0 ? file_ret : ret;
 }
-- 
2.43.0


From 6176d8a520d414629b9abfbbcdddc1daaf985529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 11/18] fix: report readdir errors and over-long names from
 futils_fs_dir_size

---
 src/fs.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..ffba08a 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,13 +67,27 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	for (;;) {
+		errno = 0;
+		entry = readdir(dir);
+		if (!entry) {
+			if (errno != 0) {
+				ret = -errno;
+				ULOG_ERRNO("can't readdir '%s'", errno, path);
+			}
+			break;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		if (snprintf(filepath, FILENAME_MAX, "%s/%s", path,
+				entry->d_name) >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From e01b3d2de834590f92d3980a913db1ec431856b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 12/18] fix: create the inotify descriptor close-on-exec and
 process short reads

---
 src/inotify.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/inotify.c b/src/inotify.c
index a118c4e..85d844b 100644
--- a/src/inotify.c
+++ b/src/inotify.c
@@ -44,12 +44,11 @@ int inotify_create(const char *path, uint32_t mask)
 {
 	int fd, wd;
 
-	fd = inotify_init();
+	fd = inotify_init1(IN_CLOEXEC);
 	if (fd < 0) {
 		ULOGE("inotify_init1: %s\n", strerror(errno));
 		goto fail;
 	}
-	(void)fd_set_close_on_exec(fd);
 
 	wd = inotify_add_watch(fd, path, mask);
 	if (wd < 0) {
@@ -91,13 +90,12 @@ void inotify_process_fd(int fd, inotify_cb_t cb,
 	ev = evbuf;
 	ret = read(fd, evbuf, count);
 
-	if (ret == count) {
-		while (count >= (int)sizeof(*ev)) {
-			(*cb)(ev, data);
-			len = sizeof(*ev) + ev->len;
-			ev = (struct inotify_event *)((char *)ev + len);
-			count -= len;
-		}
+	/* less than announced may be read, always whole events */
+	while (ret >= (int)sizeof(*ev)) {
+		(*cb)(ev, data);
+		len = sizeof(*ev) + ev->len;
+		ev = (struct inotify_event *)((char *)ev + len);
+		ret -= len;
 	}
 
 	if (evbuf != buf)
-- 
2.43.0


From 738e3583ca59c0bcf38d7374f73913999058b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 13/18] fix: recover the payload before its crc in
 futils_safew_file_check

---
 src/safew.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..5dc0a68 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -513,11 +513,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload and tmp crc, in this order: a crash in
+		 * between then looks like a stage 8 */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -531,11 +532,12 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload and tmp crc, in this order: a
+			 * crash in between then looks like a stage 8 */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 201eccf044fcb8eda752c1f0344487beaa5cad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 14/18] fix: fall back to the other crc when one is unreadable
 in futils_safew_file_check

---
 src/safew.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 5dc0a68..6b4b9f2 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -469,13 +469,11 @@ int futils_safew_file_check(const char *pathname)
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
 		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
 
 		crc_from_fhd(payload_fhd, &payload_crc);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0 && crc == payload_crc)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -527,11 +525,9 @@ int futils_safew_file_check(const char *pathname)
 		 * Check tmp pair first, if it fails test the other one
 		 */
 		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
-		if (tmp_crc == tmp_payload_crc) {
+		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and tmp crc, in this order: a
 			 * crash in between then looks like a stage 8 */
 			ret = rename(fp.tmp_path, pathname);
-- 
2.43.0


From 3317ed01f8e69c6abf402e0e0f97e41a1c17d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 15/18] fix: keep a recoverable version when
 futils_safew_fclose_commit_with_crc fails

---
 src/safew.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 6b4b9f2..54d98ec 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -230,6 +230,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool moved = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -274,18 +275,20 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
 
-	if (ret == 0 && with_crc)
+	if (ret == 0 && with_crc) {
 		/* move tmp payload to payload */
+		moved = true;
 		ret = rename(crc_fp.tmp_path, crc_fp.path);
+	}
 
 	if (ret < 0) {
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
 		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
+		/* the crc of the previous payload, or the new one if the new
+		 * payload is already in place, is needed to recover */
+		if (with_crc && !moved)
 			unlink(crc_fp.tmp_path);
-		}
 	}
 
 	free(safew_fp);
-- 
2.43.0


From 648fa0baf5a349ee73f97205d481ad9ba5e3f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 16/18] fix: do not commit a crc calculated from a partially
 read payload

---
 src/safew.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 54d98ec..9cd4e12 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -76,8 +76,10 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 	crc_from_fhd(fhd, crc);
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
-	ret = fclose(fhd);
-	if (ret < 0)
+	if (ferror(fhd))
+		ret = -1;
+
+	if (fclose(fhd) < 0)
 		return -1;
 
 	return ret;
-- 
2.43.0


From 6125381464904e69c4023ecfd258bd1689ce5fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 17/18] fix: make list.h self-contained: container macros need
 uintptr_t

---
 include/futils/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/futils/list.h b/include/futils/list.h
index 6344b5a..8a01402 100644
--- a/include/futils/list.h
+++ b/include/futils/list.h
@@ -37,6 +37,7 @@ extern "C" {
 #endif
 
 #include <stddef.h>
+#include <stdint.h>
 
 #if (!defined list_head_init) && (!defined LIST_HEAD_INIT)
 
-- 
2.43.0


From ddffa943d6b4943e6874d18a9a545bb53e3b7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 18/18] fix: varint: guard the header, include what it needs, C
 linkage in C++

---
 include/futils/varint.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/futils/varint.h b/include/futils/varint.h
index 5240d5f..98e19f4 100644
--- a/include/futils/varint.h
+++ b/include/futils/varint.h
@@ -29,6 +29,15 @@
  *        https://en.wikipedia.org/wiki/Variable-length_quantity
  *
  *****************************************************************************/
+#ifndef _FUTILS_VARINT_H
+#define _FUTILS_VARINT_H
+
+#include <stddef.h>
+#include <stdint.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif /* __cplusplus */
 
 /**
  * Reads a variable unsigned integer from data.
@@ -197,3 +206,9 @@ int futils_varint_read_i64(const uint8_t *src, size_t src_len,
  */
 int futils_varint_write_i64(uint8_t *dst, size_t dst_len,
 		int64_t val, size_t *val_len);
+
+#ifdef __cplusplus
+}
+#endif /* __cplusplus */
+
+#endif /* _FUTILS_VARINT_H */
-- 
2.43.0

