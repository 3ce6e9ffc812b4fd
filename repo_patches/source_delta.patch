From 3bb183e80c1baafb8b49c7b8d862f6dcbe8b2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 01/35] fix: continue a partially sent response where it
 stopped

After a short write the same bytes were sent again from the start of the
buffer, and a full socket buffer closed the connection.
---
 src/core/http.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..ff20255 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -110,9 +110,13 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
-			//TODO: handle error
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				//Nothing accepted, wait until the socket is writable again
+				return continue_processing;
+			}
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
-- 
2.43.0


From 1063330cef11b2844c85996d912dd705d734811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 02/35] fix: process requests that are already buffered

A pipelined request that had been read together with the previous one was
only looked at once the client sent more bytes. The result of that step was
also dropped, so a failed change of the wait mode went unnoticed, and the
result was uninitialised when the connection was waiting to write.
---
 src/core/http.cpp         | 9 +++++++--
 src/core/http_respond.cpp | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index ff20255..51a5ce6 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -64,7 +64,12 @@ state_action http_read_handle(scache_connection* connection) {
 			}
 
 			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
-			return needs_more_read;
+			if (connection->input.write_position == connection->input.read_position) {
+				return needs_more_read;
+			}
+
+			//There are still bytes buffered from an earlier read (pipelined request)
+			num = 0;
 		}
 		
 		DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
@@ -73,7 +78,7 @@ state_action http_read_handle(scache_connection* connection) {
 		RBUF_WRITEMOVE(connection->input, (uint16_t)num);
 	}
 
-	state_action run;
+	state_action run = registered_write;
 	int to_end = -1, to_end_old;
 	do {
 		if(!connection->epollin) break;
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..a284e31 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -63,8 +63,8 @@ bool http_register_read(scache_connection* connection) {
 
 	bool res = connection_register_read(connection);
 
-	if (!connection_stop_soon() && rbuf_write_remaining(&connection->input)) {
-		http_read_handle(connection);
+	if (res && !connection_stop_soon()) {
+		res = http_read_handle(connection) != close_connection;
 	}
 
 	return res;
-- 
2.43.0


From d7aabdc584846937cdfdba874c28bd4947ec5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 03/35] fix: never read past the end of the input buffer

A full buffer whose read position is not 0 was treated as contiguous, so up
to a whole read position of bytes behind the buffer were parsed or stored,
and skipping newlines at its end continued behind it. rbuf_read_to_end()
keeps its documented result for a full buffer.
---
 src/core/http_parse.cpp       |  5 +++--
 src/core/http_parse_cache.cpp |  4 ++--
 src/core/read_buffer.cpp      | 10 +++++++---
 src/core/read_buffer.h        |  8 +++++++-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..7faf9b2 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -28,7 +28,7 @@
 
 void skip_over_newlines(struct read_buffer* rb) {
 	char* buffer;
-	int end = rbuf_read_to_end(rb);
+	int end = rbuf_read_contiguous(rb);
 
 	//Nothing to skip
 	if (end == 0) {
@@ -50,7 +50,8 @@ void skip_over_newlines(struct read_buffer* rb) {
 	}
 
 	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
+	end = rbuf_read_remaining(rb);
+	buffer = RBUF_STARTPTR(rb);
 	for (int i = 0; i < end; i++) {
 		if (*buffer != '\r' && *buffer != '\n') {
 			return;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..d401b8a 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -303,7 +303,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 	if (*buffer == ':') {
 		int bytes = buffer - RBUF_READ(connection->input);
 		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
+			bytes = rbuf_read_contiguous(&connection->input) + (buffer - RBUF_START(connection->input));
 		}
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
@@ -671,7 +671,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..29d7cee 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -13,7 +13,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -40,7 +40,6 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	to_end = rbuf_read_remaining(buffer) - to_end;
 	if (to_end != 0) {
 		//Dont read more than needed
-		assert(to_end <= n);
 		if (to_end > n) {
 			to_end = n;
 		}
@@ -72,7 +71,7 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
@@ -165,6 +164,11 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	int remaining = rbuf_read_remaining(buffer);
+	int to_end = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+	return remaining < to_end ? remaining : to_end;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..d549dac 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -51,6 +51,12 @@ until the end (highest index)
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of bytes that can be read from the read position
+without running past the end (highest index) of the buffer
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +138,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From cb6f40b45df72194576329b32d8d8e2569fe05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 04/35] fix: refuse numeric headers that are not a number that
 fits

Content-Length: 4294967295 was taken as -1 and written with that length, a
value wrapping around the input buffer was read beyond its end, and a space
inside a value that arrived in pieces dropped the digits before it.
---
 src/core/http_parse_cache.cpp |  5 ++++-
 src/core/read_buffer.cpp      | 39 +++++++++++++++--------------------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index d401b8a..1c11627 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -429,7 +429,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
 	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
+	if (*buffer == ' ' && buffer == RBUF_READ(connection->input)) {
 		RBUF_READMOVE(connection->input, 1);
 	}
 	else if (*buffer == '\n' || *buffer == '\r') {
@@ -442,6 +442,9 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 		}
 
 		int length = buffer - RBUF_READ(connection->input);
+		if (length < 0) {
+			length = rbuf_read_contiguous(&connection->input) + (buffer - RBUF_START(connection->input));
+		}
 
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index 29d7cee..64a3642 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include "read_buffer.h"
 #include "debug.h"
@@ -96,44 +97,38 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
 	int result = 0;
-	int n = rbuf_read_to_end(buffer);
+	int n = rbuf_read_remaining(buffer);
 	if (max != -1 && max < n) {
 		n = max;
-		max -= n;
 	}
 
+	//No digits
+	if (n <= 0) {
+		return false;
+	}
+
+	int to_end = rbuf_read_contiguous(buffer);
 	char* buf = RBUF_READPTR(buffer);
 
-	//Handle forward
 	while (n--)
 	{
-		result *= 10;
+		//Handle rollover
+		if (to_end-- == 0) {
+			buf = RBUF_STARTPTR(buffer);
+		}
+
 		int number = (*buf++) - '0';
 
 		if (number > 9 || number < 0) {
 			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
 			return false;
 		}
-		result += number;
-	}
-
-	if (max != 0) {
-		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
-		buf = RBUF_STARTPTR(buffer);
 
-		//Handle rollover
-		while (n--)
-		{
-			result *= 10;
-			int n = (*buf++) - '0';
-
-			if (n > 9 || n < 0) {
-				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
-				return false;
-			}
-			result += n;
+		//Does not fit
+		if (result > (INT_MAX - number) / 10) {
+			return false;
 		}
+		result = result * 10 + number;
 	}
 
 	*output = result;
-- 
2.43.0


From b8c7e11bc5522b2ec99f0970fc6acb6cfdee00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 05/35] fix: a failed or short body write is not progress

The -1 of a failed write() was added to the position and taken out of the
input buffer; body bytes left in the buffer after a short write or where it
wraps around were only stored once more bytes arrived.
---
 src/core/http_parse_cache.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 1c11627..2de9478 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -694,6 +694,11 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 			}
 			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
 
+			if (read_bytes < 0) {
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return http_write_response(connection, HTTPTEMPLATE_FULL404);
+			}
+
 			//Handle the bytes written
 			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
 			RBUF_READMOVE(connection->input, read_bytes);
@@ -723,7 +728,8 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 		return http_write_response(connection, HTTPTEMPLATE_FULL200OK);
 	}
 
-	return continue_processing;
+	//More may be buffered (after a short write or a roll over)
+	return needs_more_read;
 }
 
 void cache_destroy(scache_connection* connection){
-- 
2.43.0


From 860c6ee63a13e7f67bb4f64ecf3e8cf4aa25c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 06/35] fix: size the block file in 64 bits

The length wrapped around at 4 GiB, so adding block 1048576 truncated the
block file.
---
 src/core/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..f51e37f 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -183,7 +183,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, (off64_t)db.blocks_exist * BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
-- 
2.43.0


From 9932a7a90fece27e854e77c6629b4b638fa03fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 07/35] fix: compute the amount to evict in 64 bits

An int overflowed from 2 GiB on, so nothing was evicted, and the sum went
through a 32 bit float.
---
 src/core/db.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index f51e37f..577e3d4 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -309,8 +309,8 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+	int64_t debug_bytes = *bytes_to_remove;
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -331,7 +331,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %lld bytes, %lld bytes remaining\n", (long long)debug_bytes, (long long)*bytes_to_remove);
 }
 
 static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -437,26 +437,30 @@ void db_handle_sigchld(pid_t pid){
 	}
 }
 
+//The excess plus the configured share of the limit
+static int64_t db_lru_bytes_to_remove() {
+	return (int64_t)(db.db_size_bytes - settings.max_size) + (int64_t)((double)settings.max_size * settings.db_lru_clear);
+}
+
 void db_lru_gc() {
 	bool do_lru = settings.max_size > 0 && settings.max_size < db.db_size_bytes;
 
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		int64_t bytes_to_remove;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
 		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		bytes_to_remove = db_lru_bytes_to_remove();
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
-- 
2.43.0


From 298302fbbd174efba47893b4eba3613b4bec2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 08/35] fix: remove an entry or table only once

Two connections deleting the same key or table both removed it, which
counted it twice and emptied the LRU list or used a freed hash set.
---
 src/core/http_parse_cache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2de9478..372f00f 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -376,7 +376,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 						return res ? registered_write : close_connection;
 					}
 					if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-						db_entry_handle_delete(connection->cache.target.key.entry);
+						//Another connection may have removed it since it was looked up
+						if (!connection->cache.target.key.entry->deleted) {
+							db_entry_handle_delete(connection->cache.target.key.entry);
+						}
 
 						return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
 					}
@@ -402,7 +405,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-				if (!connection->cache.target.table.table) {
+				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				db_table_handle_delete(connection->cache.target.table.table);
-- 
2.43.0


From 03d44326338ad6610bedb65f6bfc020662e43127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 09/35] fix: keep a table as long as someone uses it, and no
 longer

The hash set of a deleted table was freed while connections were still
listing, purging or writing to it; a deleted table freed later took a newer
table of the same name out of the database; removing the last key lost the
reference of its user (and crashed an upload that was still running); a
table without entries was never freed or lost a reference it did not have;
an entry freed with its table was used once more, and its key still counted.
---
 src/core/db.cpp               | 29 +++++++++++++++++++----------
 src/core/http_parse_cache.cpp |  5 +----
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 577e3d4..b2150d8 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -259,12 +259,15 @@ void db_entry_actually_delete(cache_entry* entry) {
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
-	//Remove table from database
+	//Remove table from database (a newer table may be using the slot by now)
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	//Nobody uses the table any more, free its (empty) key hash table
+	kh_destroy(entry, entry->cache_hash_set);
+
 	//Free key
 	free(entry->key);
 	free(entry);
@@ -293,7 +296,7 @@ void db_entry_deref(cache_entry* entry, bool table) {
 
 	//Deref the table
 	if (table && entry->table) {
-		db_table_deref(entry->table);
+		db_table_deref(entry->table, true);
 	}
 
 	//Actually clean up the entry
@@ -866,7 +869,8 @@ void db_target_entry_close(cache_target* target) {
 }
 
 void db_table_close(db_table* table) {
-	db_table_deref(table);
+	//A table without entries disappears with its last user
+	db_table_deref(table, true);
 }
 
 cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length) {
@@ -1202,9 +1206,6 @@ bool db_entry_handle_delete(cache_entry* entry) {
 }
 
 void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
-	// Clear key hash table
-	kh_destroy(entry, table->cache_hash_set);
-
 	// If not fully de-refed remove now, not later
 	if (table->refs != 0) {
 		assert(k != kh_end(db.tables));
@@ -1221,18 +1222,27 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 	assert(!table->deleted);
 	table->deleted = true;
 
+	//The entries hold a reference to the table (see db_entry_get_write)
+	bool has_entries = kh_size(table->cache_hash_set) != 0;
+
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
 			if (!ce->deleted) {
 				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
+				assert(db.db_keys != 0);
+				db.db_keys--;
 			}
 		}
 	}
 	
-	db_delete_table_entry(table, k);
+	if (has_entries) {
+		db_delete_table_entry(table, k);
+	}
+	else {
+		kh_del(table, db.tables, k);
+	}
 }
 
 
@@ -1274,7 +1284,6 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 		k = kh_get(table, db.tables, entry->table->hash);
 		assert (k != kh_end(db.tables));
 		db_delete_table_entry(entry->table, k, true);
-		entry->table = NULL;
 		return true;
 	}
 	return false;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 372f00f..7041bb4 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -552,10 +552,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_handle_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From aefeb5baeac9d9216bc6cc02e381cc616914c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 10/35] fix: free the key of a request that stores nothing

A PUT of a busy key and a request with an unsuitable method leaked the key;
a PUT into a table deleted meanwhile was stored where no lookup finds it.
Such a PUT also took its length from an earlier request when it gave none,
and the unsuitable method was answered before its line had been read.
---
 src/core/db.cpp               | 7 +++++++
 src/core/http_parse_cache.cpp | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index b2150d8..2137ac2 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1062,6 +1062,12 @@ Get a Cache Entry to write
 cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length) {
 	assert(table->refs >= 1); //If not, it wouldnt be existing
 
+	//The table may have been deleted since it was looked up
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
@@ -1079,6 +1085,7 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 7041bb4..44c3239 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -90,6 +90,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -113,6 +114,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		db_table_close(connection->cache.target.table.table);
 		connection->cache.target.key.entry = NULL;
 		connection->cache.target.key.fd = -1;
+		connection->cache.target.key.position = connection->cache.target.key.end_position = 0;
 	}
 
 	return true;
@@ -289,9 +291,9 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
 	if (*buffer == ' ') {
+		connection->state = 0;
 		bool temporary = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
-		connection->state = 0;
 
 		return temporary ? needs_more_read : registered_write;
 	}
@@ -357,7 +359,8 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			// Router: Entry / Key level
 			if (REQUEST_IS(connection->method, REQUEST_CACHE_LEVELKEY)) {
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
-					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
+					bool no_length = connection->cache.target.key.entry != NULL ? connection->cache.target.key.entry->data_length == 0 : connection->cache.target.key.end_position == 0;
+					if (no_length) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
 						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
-- 
2.43.0


From 61009f1de167c46f3a6e362d09dba1640aacce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 11/35] fix: declare the length of an upload again, or after
 its removal

A second Content-Length leaked the data file and its descriptor and drove
the database size 4 GiB up when it was smaller; a length declared after
the entry was removed was counted for ever and left its file behind.
---
 src/core/db.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 2137ac2..8770207 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1298,6 +1298,16 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 
 void db_target_write_allocate(struct cache_target* target, uint32_t data_length) {
 	cache_entry* entry = target->entry;
+
+	//The length is declared again, do not keep the previous file
+	if (target->fd >= 0 && target->fd != db.fd_blockfile) {
+		close_fd(target->fd, "file descriptor (cache file)");
+		target->fd = -1;
+		if (!entry->deleted) {
+			db_entry_delete(entry);
+		}
+	}
+
 	DEBUG("[#] Allocating space for entry, block is currently: %d and is single file: %s (was: %s)\n", entry->block, (data_length > BLOCK_LENGTH) ? "yes" : "no", (entry->block == -2?-1:(IS_SINGLE_FILE(entry)))? "yes":"no");
 	if (entry->block == -2) {
 		//if this is a new entry, with nothing previously allocated.
@@ -1320,26 +1330,21 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		//If this is to be an entry stored in a block
 		if (IS_SINGLE_FILE(entry)) {
 			//We are going to store in a block, and the entry is currently a file
-			get_key_path(entry, filename_buffer);
-
-			//Delete single file, its not needed any more
-			unlink(filename_buffer);
-
-			//Allocate a block
+			//(it was deleted above), allocate a block
 			entry->block = db_block_allocate_new();
 		}
 		//Else: We are going to use a block, and the entry is currently a block
 	}
 
-	//Update database counters
 	if (entry->block == -2)
 	{
-		db.db_size_bytes += data_length;
 		entry->block = -1; // must be file
 	}
-	else
+
+	//Update database counters, a deleted entry does not count (any more)
+	if (!entry->deleted)
 	{
-		db.db_size_bytes += data_length - entry->data_length;
+		db.db_size_bytes += (int64_t)data_length - entry->data_length;
 	}
 	
 	entry->data_length = data_length;
@@ -1351,6 +1356,11 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		if (ftruncate(target->fd, data_length)<0) {
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
 		}
+
+		//Nobody else will remove the file of an entry that was deleted before it had one
+		if (entry->deleted) {
+			db_entry_delete(entry);
+		}
 	}
 }
 
-- 
2.43.0


From fc4dcc84298148f76d1893e323de31cb4c2e93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 12/35] fix: do not hold a reference to every loaded entry

Nobody gave it back, so the memory and block of an entry loaded at start-up
were never freed.
---
 src/core/db.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 8770207..be381a9 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -575,9 +575,6 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
-
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
-- 
2.43.0


From dab715672b75fd18311eed12f74e7c7912133cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 13/35] fix: read the index back as it was written

A key longer than 2047 bytes overflowed the buffer it was read into, a name
ending in white space or containing it was cut there, an expiry after 2106
was cut to 32 bits, a line break in a name started a new record, and a free
block beyond the end of the block file was handed out twice.
---
 src/core/db.cpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index be381a9..bb42289 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -597,14 +597,15 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 }
 
 static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
-	char *bp = NULL;
+	char buffer[MAX_PATH];
+	char *bp = NULL, *name;
 	bool ret = false;
 	size_t len = 0;
-	uint32_t u1, u2, u3, u4;
+	uint32_t u1, u2, u4;
+	long expires;
 	db_table* table = NULL;
 	cache_entry* entry;
-	int d1;
+	int d1, name_start;
 	ssize_t read;
 
 	snprintf(buffer, sizeof(buffer), "%s/index.save", db.path_root);
@@ -631,24 +632,28 @@ static bool db_load_from_save(){
 
 	while ((read = getline(&bp, &len, fp)) != -1) {
         if(read <= 2 || bp[1] != ':') continue;
+		if(bp[read - 1] == '\n') bp[--read] = 0;
 		switch(bp[0]){
 			case 'f':
 				if(sscanf(bp, "f:%u", &u1) != 1){
 					WARN("Free block parsing error\n");
 					continue;
 				}
+				if(u1 >= db.blocks_exist){
+					DEBUG("skipping as free block %u does not exist\n", u1);
+					continue;
+				}
 				db_block_free(u1);
 			break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table, true);
 					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
+				// the name is the rest of the line, whatever it contains
+				name = (char*)malloc(read - 1);
+				memcpy(name, bp + 2, read - 1);
+				table = db_table_get_write(name, read - 2);
 				entry = NULL;
 				break;
 			case 'b':
@@ -657,13 +662,18 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				name_start = -1;
+				if(sscanf(bp+1, ":%d:%u:%ld:%u:%n", &d1, &u2, &expires, &u4, &name_start) != 4 || name_start < 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
+				// the key is the rest of the line, whatever it contains
+				name_start++;
+				name = (char*)malloc(read - name_start + 1);
+				memcpy(name, bp + name_start, read - name_start + 1);
+				entry = db_load_from_save_entry(table, name, read - name_start, d1, u2, expires, u4);
 
 				if(d1 < 0){
 					// Test file existance
@@ -671,6 +681,7 @@ static bool db_load_from_save(){
 					
 					if( access( buffer, F_OK ) == -1 ) {
 						DEBUG("skipping as file %s does not exist\n", buffer);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -678,6 +689,7 @@ static bool db_load_from_save(){
 					// Test size of blockfile
 					if(d1 >= db.blocks_exist){
 						DEBUG("skipping as block %d does not exist\n", d1);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -1413,6 +1425,11 @@ static bool full_write(int fd, const char* buffer, int buffer_length){
 	return true;
 }
 
+//The index holds one record per line, a name with a line break can not be saved
+static bool db_index_name_ok(const char* name, int length){
+	return memchr(name, '\n', length) == NULL;
+}
+
 static pid_t db_index_flush(bool copyOnWrite){
 	pid_t pid = 0;
 	char buffer[2048], buffer2[2048], buffer3[2048], buffer4[2048];
@@ -1463,6 +1480,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 			//Write table to index
 			table = kh_val(db.tables, ke);
 			if(table->deleted) continue;
+			if(!db_index_name_ok(table->key, table->key_length)) continue;
 			if(!full_write(fd, "t:", 2)) goto close_fd;
 			if(!full_write(fd, table->key, table->key_length)) goto close_fd;
 			if(!full_write(fd, "\n", 1)) goto close_fd;
@@ -1472,9 +1490,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 				if (kh_exist(table->cache_hash_set, kee)) {
 					ce = kh_val(table->cache_hash_set, kee);
 					if(ce->writing || ce->deleted) continue;
+					if(!db_index_name_ok(ce->key, ce->key_length)) continue;
 
 					//Write entry key to index
-					temp = snprintf(buffer, sizeof(buffer), "%c:%d:%u:%lu:%u:", ce->block >= 0 ? 'b':'e', ce->block, ce->data_length, ce->expires, ce->it);
+					temp = snprintf(buffer, sizeof(buffer), "%c:%d:%u:%ld:%u:", ce->block >= 0 ? 'b':'e', ce->block, ce->data_length, ce->expires, ce->it);
 					assert(temp > 0);
 					if(!full_write(fd, buffer, temp)) goto close_fd;
 					if(!full_write(fd, ce->key, ce->key_length)) goto close_fd;
-- 
2.43.0


From e48a51b37c7006661870c69f9d4a2f56b583989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 14/35] fix: list only slots the table has

A start or limit that reaches the end of the table, or an empty table, read
behind its slots, and a key was sent from an entry that may be freed by then.
---
 src/core/http_respond.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index a284e31..7c727c7 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -207,10 +207,10 @@ state_action http_respond_close_connection(scache_connection* connection) {
 state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
+	if (connection->cache.target.table.start >= kh_end(connection->cache.target.table.table->cache_hash_set)) {
 		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
 		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
+	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) >= kh_end(connection->cache.target.table.table->cache_hash_set)) {
 		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
 	}
 
@@ -236,8 +236,8 @@ state_action http_respond_listing(scache_connection* connection) {
 
 		if (entry != NULL) {
 			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
+			//(a copy, the entry may be removed before it is sent)
+			copy_to_outputbuffer(connection, entry->key, entry->key_length);
 			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
 
 			if (cleanup) {
-- 
2.43.0


From 6e9e816e7e28ed820f33fe3c87c46eef0887181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 15/35] fix: leave closing a stalled subscriber to the event
 loop

Its socket was closed twice, it was taken off the monitoring list twice, and
the event loop could still hold an event for the freed connection.
---
 src/core/http_parse_mon.cpp | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..76a1ea0 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -376,7 +376,7 @@ void monitoring_destroy(scache_connection* connection){
 
 		if(mon_pending_tail == connection){
 			assert(connection->monitoring.next == NULL);
-			mon_tail = connection->monitoring.prev;
+			mon_pending_tail = connection->monitoring.prev;
 			if(mon_pending_head == NULL){
 				assert(mon_pending_tail == NULL);
 				// early exit we remvoed from both ends
@@ -456,7 +456,6 @@ bool monitoing_needs_to_run(){
 
 void monitoring_check(){
 	scache_connection* conn;
-	int fd;
 	timeval current_time_copy = *(timeval*)&current_time;
 
 	// Every 5ms we will work down any nodes in mon_head that need to be notified
@@ -472,16 +471,6 @@ void monitoring_check(){
 		assert(conn != mon_head);
 		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
 
-		// If buffer wasnt cleared already, then we will need to disconnect
-		if(conn->output_buffer != NULL){
-			fd = conn->client_sock;
-			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
-			http_cleanup(conn);
-			connection_remove(conn);
-			close_socket(fd);
-			continue;
-		}
-
 		// Move to end (tail)
 		if(mon_tail != conn){
 			mon_tail->monitoring.next = conn;
@@ -493,19 +482,27 @@ void monitoring_check(){
 		}
 		conn->monitoring.next = NULL;
 
+		conn->monitoring.scheduled.tv_usec = current_time_copy.tv_usec;
+		conn->monitoring.scheduled.tv_sec = current_time_copy.tv_sec + MONITORING_DEFAULT_INTERVAL;
+
+		// If buffer wasnt cleared already, then we will need to disconnect
+		// (the event loop closes the connection, it may still have events for it)
+		if(conn->output_buffer != NULL){
+			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", conn->client_sock);
+			shutdown(conn->client_sock, SHUT_RDWR);
+			continue;
+		}
+
 		// Add to output buffer
-		// this will override anything already there
 		// if we can't write in the time allocated just discard. It's not worth buffering.
 		conn->output_buffer = monitoring_strings[conn->monitoring.current];
 		conn->output_length = monitoring_lens[conn->monitoring.current];
 		conn->monitoring.current ++;
-	
-		conn->monitoring.scheduled.tv_usec = current_time_copy.tv_usec;
-		conn->monitoring.scheduled.tv_sec = current_time_copy.tv_sec + MONITORING_DEFAULT_INTERVAL;
-
 
 		// signal for write registration
-		connection_register_write(conn);
+		if(!connection_register_write(conn)){
+			shutdown(conn->client_sock, SHUT_RDWR);
+		}
 	}
 
 	// check for any pending connections that have not made requests
@@ -513,10 +510,8 @@ void monitoring_check(){
 		conn = mon_pending_tail;
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
 
-		fd = conn->client_sock;		
 		http_cleanup(conn);
 		connection_remove(conn);
-		close_socket(fd);
 
 		assert(conn != mon_pending_tail);
 	}
-- 
2.43.0


From 71b56efc840c6a3b663cbe3c7ec6073d59b3dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 16/35] fix: close a subscriber whose wait mode can not be
 changed

---
 src/core/http_parse.cpp   | 4 ++--
 src/core/http_respond.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index 7faf9b2..25171bf 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -115,7 +115,7 @@ state_action http_handle_eolwritetoend(scache_connection* connection) {
 
 state_action http_discard_input(scache_connection* connection) {
 	//todo discard from readbuffer
-	connection_register_read(connection);
+	bool res = connection_register_read(connection);
 	rbuf_read_to_end(&connection->input);
-	return continue_processing;
+	return res ? continue_processing : close_connection;
 }
\ No newline at end of file
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 7c727c7..7a8c62f 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -186,9 +186,9 @@ state_action http_respond_cleanupafterwrite(scache_connection* connection) {
 	connection->output_length = 0;
 
 	CONNECTION_HANDLER(connection, http_discard_input);
-	connection_register_read(connection);
+	bool res = connection_register_read(connection);
 
-	return continue_processing;
+	return res ? continue_processing : close_connection;
 }
 
 state_action http_respond_listing_separator(scache_connection* connection) {
-- 
2.43.0


From 9c1ac232d842707034a120a9d749d976e6fa4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 17/35] fix: release all a closing connection holds

Unsent output was leaked, a connection that could not be added to epoll
stayed in the set with a closed socket, and sockets still queued at shutdown
were not closed.
---
 src/core/connection.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..320208f 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -304,6 +304,10 @@ bool connection_remove(scache_connection* conn) {
 		WARN("connection not found");
 	}
 
+	//Output that was not sent
+	if (conn->output_buffer_free) {
+		free(conn->output_buffer_free);
+	}
 	free(conn);
 	close_socket(fd);
 
@@ -602,7 +606,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					res = epoll_ctl(epfd, EPOLL_CTL_ADD, client_sock, &ev);
 					if (res != 0) {
 						PWARN("[#%d] epoll_ctl() failed to add %d.", client_sock, errno);
-						close(client_sock);
+						connection_remove(connection);
 						continue;
 					}
 
@@ -718,6 +722,11 @@ void connection_cleanup_http(scache_connection* connection) {
 
 	connection->epollout = connection->epollin = false;
 
+	//Output that was not sent
+	if (connection->output_buffer_free) {
+		free(connection->output_buffer_free);
+	}
+
 	//Free up the connection if dynamically allocated
 	free(connection);
 }
@@ -739,6 +748,7 @@ void connection_cleanup() {
 	while(cq_head != NULL){
 		temp = (connections_queued*)cq_head;
 		cq_head = cq_head->next;
+		close(temp->client_sock);
 		free(temp);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From e66352da1fac3ba1d3841ee845bab702b553878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 18/35] fix: accept loop: do not skip an event, nor hand
 descriptors to programs

A failed accept() skipped the next listener's event, a full eventfd ended
the server because errno was compared with -EAGAIN, and the event loop's
eventfds were inherited by the copy command a snapshot runs.
---
 src/core/connection.cpp | 6 ++----
 src/server/scache.cpp   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 320208f..b17b752 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -389,7 +389,6 @@ static void* connection_handle_accept(void *arg)
 							WARN("[#] accept() failed on fd %d of type %s. Error: %s", fd, connection_type_string(our_type), strerror(errno));
 						}
 					}
-					n++;
 					continue;
 				}
 				else {
@@ -403,7 +402,6 @@ static void* connection_handle_accept(void *arg)
 					
 					connections_queued* q = (connections_queued*)malloc(sizeof(connections_queued));
 					if(q == NULL){
-						n++;
 						WARN("[#%d] failed to allocate memory for connection. Abandoning incoming connection.", client_sock);
 						close_fd(client_sock, "socket");
 						continue;
@@ -432,7 +430,7 @@ static void* connection_handle_accept(void *arg)
 					do {
 						res = write(eventfd, &u, sizeof(u));
 						if(res == -1){
-							if(errno == -EAGAIN || errno == -EWOULDBLOCK){
+							if(errno == EAGAIN || errno == EWOULDBLOCK){
 								PWARN("backpressure on accept");
 								break;
 							}
@@ -491,7 +489,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 	}
 	
 	// Prepare a non blocking eventfd for thread communication
-	efd = eventfd(0, EFD_NONBLOCK);
+	efd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
 
 	//Init Acceptor thread data
 	thread_arg[0].type = cache_listener;
diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 6f1abc8..8a9e986 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -145,7 +145,7 @@ int main(int argc, char** argv)
 	http_templates_init();
 
 	//Timer (Getting time)
-	monitoring_fd = eventfd(0, EFD_NONBLOCK);
+	monitoring_fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
 	timer_setup(monitoring_fd);
 	monitoring_init();
 
-- 
2.43.0


From c774b1d139b3ff16898278ea13ef95561a676d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 19/35] fix: leave the work signals ask for to the event loop

---
 src/core/connection.cpp    | 14 ++++++++++----
 src/core/signal_handle.cpp | 10 ++++++++--
 src/core/timer.cpp         | 29 +++++++++++++++++++++++------
 src/core/timer.h           |  1 +
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b17b752..deefebb 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -22,6 +22,7 @@
 #include <netinet/tcp.h>
 #include <sys/eventfd.h>
 #include <pthread.h>
+#include <signal.h>
 #include <set>
 #include <algorithm>
 #include <fcntl.h>
@@ -30,10 +31,8 @@
 #include "debug.h"
 #include "http.h"
 #include "settings.h"
-#ifdef DEBUG_BUILD
-/* For reference counting checks */
+#include "timer.h"
 #include "db.h"
-#endif
 
 /* Globals */
 listener_collection scache_listeners = { .listeners = NULL, .listener_count = 0 };
@@ -497,13 +496,17 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 	thread_arg[0].eventfd = thread_arg[1].eventfd = efd;
 	thread_arg[0].ready = thread_arg[1].ready = false;
 
-	// Start Acceptor threads
+	// Start Acceptor threads, signals are for the event loop
+	sigset_t all_signals, old_signals;
+	sigfillset(&all_signals);
+	pthread_sigmask(SIG_SETMASK, &all_signals, &old_signals);
 	res = pthread_create(&tid[0], NULL, &connection_handle_accept, (void*)&thread_arg[0]);
 	if (res != 0)
 		PFATAL("can't create cache accept thread");
 	res = pthread_create(&tid[1], NULL, &connection_handle_accept, (void*)(&thread_arg[1]));
 	if (res != 0)
 		PFATAL("can't create mon accept thread");
+	pthread_sigmask(SIG_SETMASK, &old_signals, NULL);
 	
 	// Add monitoring socket
 	scache_connection monitoring_connection;
@@ -617,6 +620,9 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 				// send out monitoring messages
 				res = read(fd, &u, sizeof(u));
 				monitoring_check();
+				if(timer_take_flush_request()){
+					db_lru_gc();
+				}
 			}
 		}
 
diff --git a/src/core/signal_handle.cpp b/src/core/signal_handle.cpp
index ca98016..775864d 100644
--- a/src/core/signal_handle.cpp
+++ b/src/core/signal_handle.cpp
@@ -8,11 +8,17 @@
 /* Handler for Ctrl-C and related signals */
 volatile extern sig_atomic_t stop_soon;
 static void abort_handler(int sig) {
+	static const char again[] = "[-] PROGRAM ABORT : Force exit: A second signal received\n";
+	static const char first[] = "[!] WARNING: Shutting down due to a signal\n";
+	int saved_errno = errno;
+
 	if (stop_soon) {
-		FATAL("Force exit: A second signal (%s) received", strsignal(sig));
+		write(STDERR_FILENO, again, sizeof(again) - 1);
+		_exit(EXIT_FAILURE);
 	}
-	WARN("Shutting down pid %d due to %s", getpid(), strsignal(sig));
+	write(STDERR_FILENO, first, sizeof(first) - 1);
 	stop_soon = 1;
+	errno = saved_errno;
 }
 
 void signal_handler_install() {
diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 5c833df..d718d98 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -1,4 +1,5 @@
 #include <signal.h>
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <sys/types.h>
@@ -13,6 +14,7 @@
 
 volatile struct timeval current_time;
 static int mon_fd;
+static volatile sig_atomic_t flush_requested = 0;
 
 static void timer_store_current_time()
 {
@@ -29,33 +31,48 @@ static void timer_store_current_time()
 static void timer_handler(int signum)
 {
 	uint64_t u = 1;
+	int saved_errno = errno;
 
 	// time accurate to the nearest 5ms
 	timer_store_current_time();
 
-	// check for monitoring updates
-	if(monitoing_needs_to_run()){
-		write(mon_fd, &u, sizeof(u));
-	}	
+	// the event loop checks for monitoring updates
+	write(mon_fd, &u, sizeof(u));
+	errno = saved_errno;
 }
 
 static void child_handler(int signum)
 {
 	int wstat;
 	pid_t	pid;
+	int saved_errno = errno;
 
 	while (true) {
 		pid = waitpid (-1, &wstat, WNOHANG );
 		if (pid <= 0)
-			return;
+			break;
 			
 		db_handle_sigchld(pid);
 	}
+	errno = saved_errno;
 }
 
 static void flush_handler(int signum)
 {
-	db_lru_gc();
+	uint64_t u = 1;
+	int saved_errno = errno;
+
+	// carried out by the event loop
+	flush_requested = 1;
+	write(mon_fd, &u, sizeof(u));
+	errno = saved_errno;
+}
+
+bool timer_take_flush_request()
+{
+	if (!flush_requested) return false;
+	flush_requested = 0;
+	return true;
 }
 
 void timer_setup(int evfd)
diff --git a/src/core/timer.h b/src/core/timer.h
index 4f720d5..2ca6a8f 100644
--- a/src/core/timer.h
+++ b/src/core/timer.h
@@ -1,4 +1,5 @@
 volatile extern struct timeval current_time;
 
 void timer_setup(int evfd);
+bool timer_take_flush_request();
 void timer_cleanup();
\ No newline at end of file
-- 
2.43.0


From 0e0bbcdb79db93597239824765b6453a07409866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 20/35] fix: a snapshot process that ended does not prevent the
 next

---
 src/core/db.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index bb42289..b28a71e 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -65,7 +65,7 @@ struct db_details db {
 	.tables = NULL
 };
 
-pid_t current_flush = 0;
+volatile pid_t current_flush = 0;
 
 static pid_t db_index_flush(bool copyOnWrite = true);
 
@@ -422,16 +422,12 @@ static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
 	w = waitpid(current_flush, &status, flags);
-	if (w) {
-		if (WIFEXITED(status)) {
-			current_flush = 0;
-			return false;
-		}
-	} else if(w == -1) {
-		current_flush = 0;
-		return false;
+	if (w == 0) {
+		return true;
 	}
-	return true;
+	//It ended, whichever way, or was waited for already
+	current_flush = 0;
+	return false;
 }
 
 void db_handle_sigchld(pid_t pid){
-- 
2.43.0


From 4ec1e943de0670794f88e59c3f294b6c7ef1a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 21/35] fix: a snapshot that fails leaves the previous one in
 place

---
 src/core/db.cpp | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index b28a71e..ef8aebb 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -337,7 +337,7 @@ void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %lld bytes, %lld bytes remaining\n", (long long)debug_bytes, (long long)*bytes_to_remove);
 }
 
-static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
+static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
 	char buffer[8096];
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
@@ -347,7 +347,7 @@ static void force_link(const char* fileThatExists, const char* fileThatDoesNotEx
 		//Really bad! Temporary.
 		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
 		printf("Executing %s\n", buffer);
-		system(buffer);
+		return system(buffer) == 0;
 	//}
 }
 
@@ -713,7 +713,9 @@ static bool db_load_from_save(){
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
-	force_link(buffer, db.path_blockfile);
+	if(!force_link(buffer, db.path_blockfile)){
+		PFATAL("Unable to restore saved block file");
+	}
 
 	ret = true;
 close_fd:
@@ -1428,6 +1430,7 @@ static bool db_index_name_ok(const char* name, int length){
 
 static pid_t db_index_flush(bool copyOnWrite){
 	pid_t pid = 0;
+	bool saved = false;
 	char buffer[2048], buffer2[2048], buffer3[2048], buffer4[2048];
 	db_table* table;
 	cache_entry* ce;
@@ -1441,10 +1444,17 @@ static pid_t db_index_flush(bool copyOnWrite){
 	unlink(buffer);
 
 	// ensure all data is on disk
-	fdatasync(db.fd_blockfile);
+	if(fdatasync(db.fd_blockfile) == -1){
+		PWARN("Unable to flush index, unable to sync block file");
+		return 0;
+	}
 
 	// create a hard link from the currentl block file to ${blockfile}.temp
-	force_link(db.path_blockfile, buffer);
+	if(!force_link(db.path_blockfile, buffer)){
+		PWARN("Unable to flush index, unable to copy block file");
+		unlink(buffer);
+		return 0;
+	}
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
@@ -1507,7 +1517,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 	temp = snprintf(buffer, sizeof(buffer), "%s/index.temp", db.path_root);
 	assert(temp > 0);
 	temp = snprintf(buffer2, sizeof(buffer2), "%s/index.save", db.path_root);
-	unlink(buffer2);
+	assert(temp > 0);
 
 	// blockfile.temp -> blockfile.save
 	temp = snprintf(buffer3, sizeof(buffer3), "%s.temp", db.path_blockfile);
@@ -1516,12 +1526,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 	assert(temp > 0);
 
 	// execute the renames of tmp files to actual
-	rename(buffer, buffer2);
-	rename(buffer3, buffer4);
-	unlink(buffer3);
-	unlink(buffer);
-
-	pid = 0;
+	saved = rename(buffer, buffer2) == 0 && rename(buffer3, buffer4) == 0;
 	
 	close_fd:
 	if(fd != -1) {
@@ -1529,17 +1534,20 @@ static pid_t db_index_flush(bool copyOnWrite){
 	}
 
 	close:
+	if(!saved){
+		PWARN("Unable to write index due to error");
+
+		// the previous snapshot stays
+		snprintf(buffer, sizeof(buffer), "%s/index.temp", db.path_root);
+		unlink(buffer);
+		snprintf(buffer, sizeof(buffer), "%s.temp", db.path_blockfile);
+		unlink(buffer);
+	}
 	if(copyOnWrite){
-		if(pid){
-			PWARN("Unable to write index due to error");
-			
-			snprintf(buffer2, 1024, "%s/db.temp", db.path_root);
-			unlink(buffer2);
-		}
-		_exit(0);
+		_exit(saved ? 0 : 1);
 	}
 
-	return pid;
+	return 0;
 }
 
 /*
-- 
2.43.0


From 98c70a81624f6b020a904772b84c3c331a4e65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 22/35] fix: lock the PID file exclusively and name the serving
 process in it

---
 src/server/scache.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 8a9e986..d492f5a 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -32,12 +32,12 @@ int write_pid(char* pidFile, __pid_t pid) {
 	int fd, size;
 	char buf[16];
 
-	fd = open(pidFile, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+	fd = open(pidFile, O_RDWR | O_CREAT | O_CLOEXEC, S_IRUSR | S_IWUSR);
 	if (fd == -1)
 		PFATAL("Could not open PID file %s", pidFile);
 
-	if (flock(fd, F_WRLCK) == -1) {
-		if (errno == EAGAIN || errno == EACCES)
+	if (flock(fd, LOCK_EX | LOCK_NB) == -1) {
+		if (errno == EWOULDBLOCK)
 			PFATAL("PID file '%s' is locked; probably "
 			"scache is already running", pidFile);
 		else
@@ -131,11 +131,9 @@ int main(int argc, char** argv)
 	if (settings.daemon_mode) {
 		null_fd = open("/dev/null", O_RDONLY);
 		if (null_fd < 0) PFATAL("Cannot open '/dev/null'.");
-		pid = fork_off();
-	}
-	else{
-		pid = getpid();
+		fork_off();
 	}
+	pid = getpid();
 
 	if (settings.pidfile) {
 		pidfd = write_pid(settings.pidfile, pid);
@@ -168,9 +166,9 @@ int main(int argc, char** argv)
 
 	//PID file cleanup
 	if (settings.pidfile) {
-		close(pidfd);
 		if(!settings.leavepidfile){
 			unlink(settings.pidfile);
 		}
+		close(pidfd);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From bb37f3b7d35cc2fe04bf8741ebfb726959b27a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 23/35] fix: refuse addresses that can not be parsed, parse
 IPv6 addresses

---
 src/core/settings.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..67c0889 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -63,6 +63,8 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 {
 	char* optarg = strdup(optarg_const);
 	int len = strlen(optarg);
+	char* port_end;
+	long port;
 	bind_parse_state state = bind_parse_state::first;
 	int state_start = 0;
 	int num = 0;
@@ -109,19 +111,29 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			}
 		case bind_parse_state::ipv6:
 		case bind_parse_state::ipv4:
-			if (optarg[i] == ':')
+			if (optarg[i] == (state == bind_parse_state::ipv6 ? ']' : ':'))
 			{
 				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
+				if (inet_pton(current->af, optarg + state_start, current->addr) != 1) {
+					FATAL("Error parsing bind address %s", optarg + state_start);
+				}
+				if (state == bind_parse_state::ipv6 && optarg[++i] != ':') {
+					FATAL("Expected a port after the bind address");
 				}
 				state = bind_parse_state::port;
 				state_start = i + 1;
 			}
+			else if (optarg[i] == 0 || optarg[i] == ',')
+			{
+				FATAL("Expected a port after the bind address");
+			}
 			break;
 		case bind_parse_state::unix_path:
 			if (optarg[i] == 0 || optarg[i] == ',')
 			{
+				if (i == state_start || (size_t)(i - state_start) >= sizeof(((struct sockaddr_un*)0)->sun_path)) {
+					FATAL("Invalid length of bind path");
+				}
 				memcpy(current->addr, optarg + state_start, i - state_start);
 				current->port = 0;
 				if (optarg[i] == ',')
@@ -139,7 +151,11 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			else if (optarg[i] == 0 || optarg[i] == ',')
 			{
 				optarg[current->transparent ? (i - 1) : i] = 0;
-				current->port = atoi(optarg + state_start);
+				port = strtol(optarg + state_start, &port_end, 10);
+				if (port_end == optarg + state_start || *port_end != 0 || port < 0 || port > 65535) {
+					FATAL("Invalid bind port %s", optarg + state_start);
+				}
+				current->port = port;
 				if (copy == ',')
 				{
 					current++;
-- 
2.43.0


From 9a423e06c5ef60b0b80a92110ec57a6742fff967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 24/35] fix: usage text that agrees with the options

---
 src/core/settings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 67c0889..bb602c0 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -29,7 +29,6 @@ static void print_usage() {
 "\n"
 "Networking options:\n"
 "\n"
-"  -4 / -6                                  - bind to either IPv4 or IPv6 address (default: IPv4)\n"
 "  -b addr  --bind addr:port                - listen on the specified network address for cache requests (default: none)\n"
 "  -B addr  --monitor addr:port             - listen on the specified network address for monitoring requests (default: none)\n"
 "\n"
@@ -37,13 +36,14 @@ static void print_usage() {
 "\n"
 "  -s bytes  --database-max-size bytes      - max size to be maintained by LRU (default: 0)\n"
 "  -r path  --database-file-path path       - where to store data (default: /var/lib/scache/)\n"
-"  -l percent  --database-lru-clear percent - percentage of database to free during LRU cleanup (default: 10)\n"
+"  -l percent  --database-lru-clear percent - percentage of database to free during LRU cleanup (default: 20)\n"
 "\n"
 "General settings:\n"
 "\n"
 "  -m file  --make-pid file                 - output a PID file (default: no)\n"
+"  --leave-pid                              - do not remove the PID file at exit (default: no)\n"
 "  -d                                       - daemonize (default: no)\n"
-"  -o                                       - redirect output to /dev/null if daemonized (default: yes)\n"
+"  -o                                       - keep the output if daemonized (default: redirect to /dev/null)\n"
 "\n"
 "Problems? You can reach the author at <admin@x4b.net>.\n");
 }
-- 
2.43.0


From dd32be0fe45eaeac9f46e0be492a7b77299fd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 25/35] fix: listen on every address given, not only on the
 last option

---
 src/core/settings.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index bb602c0..1e9f1af 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -77,9 +77,10 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 	}
 	
 	// Initialize memory for bind
-	scache_bind* current = (scache_bind*)malloc(sizeof(scache_bind) * num);
-	target->num = num;
-	target->binds = current;
+	// (the option may be given more than once)
+	target->binds = (scache_bind*)realloc(target->binds, sizeof(scache_bind) * (target->num + num));
+	scache_bind* current = target->binds + target->num;
+	target->num += num;
 	memset(current, 0, sizeof(scache_bind) * num);
 
 	// Parse the options string
-- 
2.43.0


From 8ec8312c4d14493761cf52a22ddbf5136bb594d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 26/35] fix: a partial block at the end of the block file is
 not a free block

---
 src/core/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index ef8aebb..5d8066d 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -783,7 +783,9 @@ bool db_open(const char* path) {
 		if((size % BLOCK_LENGTH) != 0){
 			WARN("Block file was strange size of %d", size);
 			
-			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
+			//Only whole blocks exist
+			size = (size / BLOCK_LENGTH) * BLOCK_LENGTH;
+			if(ftruncate(db.fd_blockfile, size) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
 		}
-- 
2.43.0


From e81749be1ab79cd438f1c3334dd67b570084a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 27/35] fix: compare all bytes of a name, also after a zero
 byte

---
 src/core/db.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 5d8066d..8ae4b09 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -910,14 +910,14 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
 			DEBUG("DB Key length does not match\n");
 		}
 		else{
-			if (strncmp(key, entry->key, length) != 0) {
+			if (memcmp(key, entry->key, length) != 0) {
 				DEBUG("String Keys dont match\n");
 			}
 		}
@@ -971,7 +971,7 @@ struct db_table* db_table_get_read(char* name, int length) {
 		assert(table->hash == hash);
 		
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1023,7 +1023,7 @@ struct db_table* db_table_get_write(char* name, int length) {
 		assert(table->hash == hash);
 	
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1149,7 +1149,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1160,7 +1160,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 				DEBUG("DB Key length does not match\n");
 			}
 			else{
-				if (strncmp(key, entry->key, length)) {
+				if (memcmp(key, entry->key, length)) {
 					DEBUG("String Keys dont match\n");
 				}
 			}
-- 
2.43.0


From fa3b43c49868855b750b4665183b7f51ee5c9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 28/35] fix: refuse an invalid X-Ttl also when the value is not
 stored

---
 src/core/http_parse_cache.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 44c3239..f716238 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -488,16 +488,16 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 		case HEADER_XTTL:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
-				if (connection->cache.target.key.entry != NULL) {
-					int ttl;
-					if (!rbuf_strntol(&connection->input, &ttl, length)) {
-						WARN("Invalid X-Ttl value provided");
+				int ttl;
+				if (!rbuf_strntol(&connection->input, &ttl, length)) {
+					WARN("Invalid X-Ttl value provided");
 
-						//This is an INVALID request
-						RBUF_READMOVE(connection->input, length + temporary);
-						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
-					}
+					//This is an INVALID request
+					RBUF_READMOVE(connection->input, length + temporary);
+					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+				}
 
+				if (connection->cache.target.key.entry != NULL) {
 					//Else: We are writing, initalize fd now
 					DEBUG("[#%d] X-Ttl of %d found\n", connection->client_sock, ttl);
 
-- 
2.43.0


From 2b32ad5b159b3d8423cb6b8cb67d712f7f5cd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 29/35] fix: wait for the end of a header line before it is
 consumed

---
 src/core/http_parse_cache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index f716238..ebd4124 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -452,6 +452,11 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 			length = rbuf_read_contiguous(&connection->input) + (buffer - RBUF_START(connection->input));
 		}
 
+		//The \n of a \r\n may not have been received yet
+		if (length + temporary > rbuf_read_remaining(&connection->input)) {
+			return continue_processing;
+		}
+
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
-- 
2.43.0


From a579e81c191eb10f2be958826f4a174b616d6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 30/35] fix: read a statistics request to its end before it is
 answered

---
 src/core/http_parse_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index ebd4124..d052656 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
-- 
2.43.0


From 47d0b786145e6c1e3cd7ba5ced4cf2a4f105c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 31/35] fix: do not consume more than the url of a monitoring
 request

---
 src/core/http_parse_mon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 76a1ea0..bbccfe1 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -221,7 +221,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
-- 
2.43.0


From a63a188da6466c5063dae137a553ca57def6e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 32/35] fix: read a monitoring request for an unknown path to
 its end before it is answered

---
 src/core/http_parse_mon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index bbccfe1..6219f37 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -239,7 +239,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 
 		DEBUG("[#%d] HTTP 404 Not Found for URL \"%s\" of length %d\n", connection->client_sock, key, n);
 		free(key);
-		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
+		return http_headers_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
 	}
 
 	return continue_processing;
-- 
2.43.0


From 6f3e985eff492244371567f7bc20a56cd4751cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 33/35] fix: consume the line of a refused monitoring request
 before it is answered

---
 src/core/http_parse_mon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 6219f37..8d55bc1 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -63,7 +63,7 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
-	connection->state = 0;
+	connection->state = 1;
 	return needs_more_read;
 }
 
-- 
2.43.0


From 9201404ad83f6d39cbfd5735376d2df3b7b5adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 34/35] fix: do not consume more than the url of a table
 request

---
 src/core/http_parse_cache.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index d052656..817ff54 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -249,7 +249,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -259,7 +259,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
 				//Else request for table/key
 				CONNECTION_HANDLER(connection, http_cache_handle_headers);
@@ -271,7 +271,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -280,7 +280,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
-- 
2.43.0


From 975dd1096a5446eefd2b732065a7e1d3211cbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:52 +0000
Subject: [PATCH 35/35] fix: wait on for the snapshot process when a signal
 interrupts the wait

---
 src/core/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 8ae4b09..53179c9 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -421,7 +421,9 @@ bool db_expire_cursor() {
 static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
-	w = waitpid(current_flush, &status, flags);
+	do {
+		w = waitpid(current_flush, &status, flags);
+	} while (w == -1 && errno == EINTR); //Interrupted by a signal, it may still be running
 	if (w == 0) {
 		return true;
 	}
-- 
2.43.0

