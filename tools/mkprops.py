#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

CORE = "src/core/"
db, dbh, conn, connh = CORE+"db.cpp", CORE+"db.h", CORE+"connection.cpp", CORE+"connection.h"
http, httph, parse, pcache, pmon, resp = [CORE+x for x in ("http.cpp","http.h","http_parse.cpp","http_parse_cache.cpp","http_parse_mon.cpp","http_respond.cpp")]
rb, rbh, sett, sig, tim, main = CORE+"read_buffer.cpp", CORE+"read_buffer.h", CORE+"settings.cpp", CORE+"signal_handle.cpp", CORE+"timer.cpp", "src/server/scache.cpp"

p("C01", "Every response is a correctly framed HTTP message",
  "Every fixed response is a status line, CRLF-terminated headers and a blank line followed by exactly the number of body bytes its Content-Length announces, and is sent with its own length; error responses (400, 404) and successes (200) keep their status. "
  "A response for a key announces the stored value's size as Content-Length and sends that value from its first byte to its last; the statistics page announces exactly the size of its text. "
  "When the socket accepts only part of the pending output, the remainder is sent next, with no byte repeated or skipped.",
  ["inputs","schedules"], "all requests and all splits of the output over socket writes",
  "The scenarios compare a handful of responses over a loopback socket that never splits a write; a partial write or an untested template is never seen.",
  [httph, http, resp, pcache, pmon],
  [("http_templates","src/core/http.h"),("http_write_handle","src/core/http.cpp"),("http_respond_* chain","src/core/http_respond.cpp")],
  [("output_buffer/output_length","pending output of a connection","src/core/connection_structures.h")], ["client socket"])

p("C02", "A connection's wait mode always matches what it has to do next",
  "At every moment an open connection is either waiting for request bytes, with the next step being one that consumes input, or waiting to write, with the next step being one that produces output or finishes a response: no request leaves it waiting for input while its response is unsent or waiting to write with a step that expects input. "
  "A failed change of the wait mode closes the connection. "
  "Once a response has been sent completely, everything the request held is released before the connection starts on the next request.",
  ["inputs","schedules"], "all request sequences, and all ways of splitting them over reads and readiness events",
  "Each scenario drives one or two ways through the state machine; the product of handler, mode and readiness event is never enumerated.",
  [http, parse, pcache, pmon, resp, conn],
  [("CONNECTION_HANDLER","src/core/connection.h"),("connection_register_read/_write","src/core/connection.cpp"),("http_respond_writeonly","src/core/http_respond.cpp")],
  [("handler","next step of the connection","src/core/connection_structures.h"),("epollin/epollout","wait mode","src/core/connection_structures.h")], ["client socket"])

p("C03", "A value becomes readable only once its upload is complete",
  "A stored value becomes readable, and its PUT is acknowledged, only after exactly the declared number of body bytes has been received and stored for it; until then a GET of the key is answered 404. The end of its own request never removes a completed value; a PUT for a key that another connection is uploading is read to its end and discarded. "
  "An upload that ends any other way (the client disconnects, the request is rejected, storing fails) is removed from the cache and is never served afterwards. "
  "Each body byte received is stored at the position following the previous one, and bytes beyond the declared length are left for the next request.",
  ["inputs","schedules","fault_sequences"], "all splittings of the body, all disconnect points and all storage failures",
  "The interruption scenarios cut four particular uploads; failures of write or lseek are never produced.",
  [pcache, db],
  [("http_cache_handle_request_body","src/core/http_parse_cache.cpp"),("db_complete_writing","src/core/db.cpp"),("cache_destroy","src/core/http_parse_cache.cpp")],
  [("writing","entry is still being uploaded","src/core/db_structures.h")], ["GET responses"])

p("C04", "A request only ever reaches the exact key and table it names",
  "A GET, HEAD or DELETE acts on an entry only if the entry's key has the same length and bytes as the requested one, and a table is used only if its name has the same length and bytes as the requested one, whatever hashes collide. "
  "A GET or HEAD never returns an entry that is still being uploaded. "
  "A lookup that finds nothing suitable is answered 404 and leaves other entries untouched, except that an expired entry it meets is removed.",
  ["inputs","histories"], "all keys, tables and hash collisions",
  "Producing a 32-bit Murmur collision is beyond the scenarios, which never exercise the mismatch branches.",
  [db, pcache],
  [("db_entry_get_read/_delete","src/core/db.cpp"),("db_table_get_read/_write","src/core/db.cpp")],
  [("key,key_length,hash","identity of an entry or table","src/core/db_structures.h")], ["GET/DELETE responses"])

p("C05", "Removing an entry takes full effect, exactly once",
  "When an entry is deleted, overwritten, expired, evicted, abandoned or dropped with its table, it at once stops being findable, leaves the recency list if it was in it, stops counting towards the size of the database, and its data file, if it has one, is unlinked. "
  "Each of these happens exactly once per entry however many connections ask for the removal at the same time, and a second removal request has no further effect. "
  "A table whose last entry is removed disappears with it.",
  ["histories","schedules"], "all interleavings of deletes, overwrites, expiry, eviction and disconnects over several connections",
  "The multi-connection scenarios interleave whole requests only; requests half-parsed while another connection removes the same entry are not covered.",
  [db, pcache],
  [("db_entry_handle_delete","src/core/db.cpp"),("db_entry_handle_softdelete","src/core/db.cpp"),("db_table_handle_delete","src/core/db.cpp")],
  [("deleted","entry or table has been removed","src/core/db_structures.h")], ["stats page, filesystem"])

p("C06", "Entries and tables live exactly as long as someone uses them",
  "An entry or table that a connection is reading, writing, listing or deleting is never freed or reused under it, even if it is removed meanwhile. "
  "Every reference a request takes is given back exactly once, on every way the request can end. "
  "A removed entry or table is freed when its last reference is given back, and never twice; freeing an old table never disturbs a newer table of the same name.",
  ["histories","schedules"], "all interleavings of requests, removals and disconnects",
  "A reference-count error needs a particular interleaving and shows, if at all, long after; the tests only check the counts in debug builds when no connection is open.",
  [db, pcache, resp],
  [("db_entry_incref/_deref","src/core/db.cpp"),("db_table_incref/_deref","src/core/db.cpp"),("cache_destroy","src/core/http_parse_cache.cpp")],
  [("refs","reference count of entries and tables","src/core/db_structures.h")], ["heap"])

p("C07", "A block of the block file belongs to at most one live value",
  "A block is handed out only if it is on the free list, from which it is removed, or if it is a new block at the end of the file; it is returned exactly once, and not before the entry that owns it has been removed and its last user has finished. "
  "The number of free blocks reported always equals the number of blocks on the free list, and the file is lengthened when a block is added at its end and shortened only by dropping a free last block. "
  "At start-up without a saved index every existing block is free exactly once.",
  ["histories"], "all sequences of uploads, overwrites, removals and restarts",
  "Sharing a block needs a specific reuse history; scenarios run fewer than 257 blocks and never read a value after its block could have been reused.",
  [db],
  [("db_block_allocate_new","src/core/db.cpp"),("db_block_free","src/core/db.cpp"),("db_entry_actually_delete","src/core/db.cpp"),("db_target_write_allocate","src/core/db.cpp")],
  [("free_blocks,blocks_free,blocks_exist","free list and its counters","src/core/db.h"),("block","block owned by an entry","src/core/db_structures.h")], ["block file"])

p("C08", "The reported key count and database size are exact",
  "The reported number of keys rises by one when a key is added to a table and falls by one when a key leaves it, by whatever way, and does not change when a key is overwritten. "
  "The reported database size changes by exactly the declared size of a value when the value is declared, and by exactly that size when the value's entry is removed, so that an empty cache reports zero for both. "
  "Each lookup hit, upload and deletion is counted once in the statistics.",
  ["histories"], "all request histories",
  "The counters are 64-bit accumulations over the whole history; no scenario reads them after a mixed history.",
  [db],
  [("db_entry_get_write","src/core/db.cpp"),("db_target_write_allocate","src/core/db.cpp"),("db_entry_handle_delete/_softdelete","src/core/db.cpp")],
  [("db_keys, db_size_bytes","reported counters","src/core/db.h")], ["GET / statistics page"])

p("C09", "The recency list holds each complete entry once, most recent last",
  "The recency list is a well-formed doubly linked list from least to most recently used holding exactly the complete, not removed entries, each once. "
  "An entry is appended at the most-recent end when its upload completes or it is loaded at start-up and moved there on every GET or HEAD hit; it is taken out when removed. "
  "No other operation reorders the list.",
  ["histories"], "all sequences of list operations, for every position of the entry in the list",
  "Debug builds check the list flags on a few scenarios; order is never checked and the lru scenario is disabled.",
  [db],
  [("db_lru_insert","src/core/db.cpp"),("db_lru_remove_node","src/core/db.cpp"),("db_lru_hit","src/core/db.cpp")],
  [("lru_head,lru_tail,lru_next,lru_prev","the list","src/core/db.h")], ["eviction order"])

p("C10", "Exceeding the size limit evicts least recently used entries first",
  "When a size limit is set and the database exceeds it, a clean-up removes entries starting from the least recently used one until it has removed the excess plus the configured share of the limit or the cache is empty; without a limit, or below it, nothing is evicted. "
  "The amount to remove is computed without overflow for every limit and size the settings accept. "
  "Eviction never removes an entry that is still being uploaded.",
  ["histories","configurations"], "all limits, shares and histories",
  "The lru scenario is disabled and uses a 5000-byte limit; sizes beyond 2 GiB are out of reach of a test run.",
  [db],
  [("db_lru_gc","src/core/db.cpp"),("db_lru_cleanup_percent","src/core/db.cpp")],
  [("settings.max_size, settings.db_lru_clear","limit and share","src/core/settings.h")], ["stats page"])

p("C11", "An entry is served until its time-to-live runs out and never after",
  "A PUT with a non-zero X-Ttl expires that many seconds after it was received, one without never expires; a GET or HEAD of an entry whose expiry time has passed is answered 404 and removes it, and one whose expiry has not passed is served. "
  "The periodic sweep removes exactly the entries whose expiry time has passed and visits every table in turn. "
  "The X-Ttl of a response is the remaining time, or 0 for an entry that never expires.",
  ["inputs","histories"], "all expiry times and clock readings",
  "Scenarios wait for two particular expiries; boundaries, sweeps over many tables and expired entries met by other requests are not covered.",
  [db, pcache, resp],
  [("db_entry_get_read","src/core/db.cpp"),("db_expire_cursor(_table)","src/core/db.cpp"),("http_read_header_extraction","src/core/http_parse_cache.cpp"),("http_respond_expires","src/core/http_respond.cpp")],
  [("expires","absolute expiry time, 0 for none","src/core/db_structures.h")], ["GET responses"])

p("C12", "The saved index describes the cache faithfully",
  "A saved index holds every free block, and under the name of each table a record for each of its complete entries: the letter of the place the value is stored in, block number, size, expiry and file number with their full values, and the whole key. "
  "Every record is one line of the form the start reads. An entry that is still being uploaded, or was removed, is never saved, nor is a table that was removed; a name that contains a line break is left out rather than saved as something else.",
  ["inputs","histories"], "all cache contents, keys and write behaviour (short and failing writes)",
  "No test looks at the saved index or restarts the server.",
  [db],
  [("db_index_flush","src/core/db.cpp"),("full_write","src/core/db.cpp")],
  [("index.save","saved index","database directory")], ["restart"])

p("C13", "A saved snapshot is replaced only by a complete new one",
  "The snapshot is written under temporary names and takes the place of the previous one only by renaming, after every record has been written without error; a snapshot that fails part-way leaves the previous one in place. "
  "Block data is synced before the block file is copied for the snapshot, and the copy is made before the index is written. "
  "The process that writes a background snapshot exits without returning to serve requests, at most one such process runs at a time, and a finished one never prevents the next.",
  ["crash_points","fault_sequences"], "all write failures and crash points during a snapshot",
  "No test makes a write fail or stops the server inside a snapshot.",
  [db, tim],
  [("db_index_flush","src/core/db.cpp"),("currently_flushing","src/core/db.cpp"),("full_write","src/core/db.cpp"),("child_handler","src/core/timer.cpp")],
  [("current_flush","running snapshot process","src/core/db.cpp")], ["database directory"])

p("C14", "Client-supplied bytes never choose a file, a command or a format",
  "The name of every file the server opens, creates, renames or removes, and every command it runs, is built only from the configured paths, constant text, and numbers (hashes, counters); no byte of a table name, key, header or body reaches them. "
  "No client-supplied byte is ever used as a format string.",
  ["inputs"], "all requests",
  "A test can only try some hostile names; the guarantee is about every flow of client bytes in the program.",
  [db, pcache, pmon, resp, conn, main],
  [("get_key_path","src/core/db.cpp"),("force_link","src/core/db.cpp")],
  [("path_root, path_single, path_blockfile","configured paths","src/core/db.h")], ["filesystem"])

p("C15", "Sizes and offsets are computed wide enough for large databases",
  "Every byte offset into, and every length given to, the block file or a data file is computed in 64 bits, so that no block number the allocator can hand out wraps around or truncates the file. "
  "The database size, the size limit and the amount to evict are held in 64 bits throughout, never passing through a narrower type.",
  ["histories","configurations"], "all database sizes up to the limits of the block counter",
  "A block file over 4 GiB or a database over 2 GiB is out of reach of the test run.",
  [db, pcache, resp],
  [("db_block_size","src/core/db.cpp"),("db_target_open","src/core/db.cpp"),("db_lru_gc","src/core/db.cpp")],
  [("blocks_exist, db_size_bytes","counters that outgrow 32 bits when scaled","src/core/db.h")], ["block file"])

p("C16", "Every descriptor opened is closed exactly once",
  "A data file opened for a request is closed exactly once, however the request ends, and before the connection opens another one; the shared block file is never closed by a request. "
  "No descriptor is closed twice or used after it was closed, and an error while setting one up does not leave it open. "
  "Sockets the server accepts or listens on, and the descriptors the event loop uses, are not inherited by programs it runs.",
  ["inputs","schedules","fault_sequences"], "all ways requests, set-up and shutdown can end",
  "Descriptor leaks and double closes only show under long runs or particular failures; tests do neither.",
  [db, conn, pcache, pmon],
  [("db_target_open","src/core/db.cpp"),("db_target_entry_close","src/core/db.cpp"),("close_fd, close_socket","src/core/connection.cpp")],
  [("fd","descriptor of the open target","src/core/connection_structures.h")], ["/proc/PID/fd"])

p("C17", "Client input never makes the server touch memory out of bounds",
  "Bytes are copied into and out of a connection's input buffer only within its bounds and only as far as bytes were received, also when the data wraps around its end; a full buffer stops reading. "
  "No table listing, whatever its X-Start and X-Limit, looks outside the table's slots. "
  "Text built from client data or entry data never exceeds the buffer it is built in.",
  ["inputs","schedules"], "all byte streams and all ways they are split over reads",
  "The buffer tests use a few positions; requests whose header or key straddles the wrap, and hostile listing ranges, are not tried.",
  [rb, rbh, http, parse, pcache, pmon, resp],
  [("rbuf_copyn, rbuf_cmpn, rbuf_strntol","src/core/read_buffer.cpp"),("http_read_handle","src/core/http.cpp"),("http_respond_listing","src/core/http_respond.cpp")],
  [("read_position, write_position","ring positions","src/core/read_buffer.h")], ["heap and stack"])

p("C18", "A numeric request header means its decimal value or is refused",
  "The value of Content-Length, X-Ttl, X-Start or X-Limit is used only if it consists of decimal digits whose value fits; anything else, including a value too large to represent, is refused with a 400 response and has no effect on the cache. "
  "Digits are taken in order from the header's own bytes, and only those, also when the value wraps around the input buffer. "
  "Each header is honoured only for the kind of request it belongs to.",
  ["inputs"], "all header values and their position in the buffer",
  "One scenario sends one invalid Content-Length.",
  [rb, pcache],
  [("rbuf_strntol","src/core/read_buffer.cpp"),("http_read_header_extraction","src/core/http_parse_cache.cpp"),("http_read_headers","src/core/http_parse_cache.cpp")],
  [], ["responses"])

p("C19", "Shared state is touched by one thread, or under its lock",
  "The hand-over queue between the accepting threads and the event loop is read and written only while its lock is held (or when no other thread exists), the lock is released on every way out and never taken twice, and no accepted socket is lost in between. "
  "Cache contents, connections and the monitoring lists are used by the event-loop thread only. "
  "A thread never waits for a socket, file or child process while holding the lock.",
  ["schedules"], "all interleavings of the accepting threads and the event loop",
  "A data race needs a particular interleaving of threads; the tests do not control the schedule.",
  [conn],
  [("connection_handle_accept","src/core/connection.cpp"),("connection_event_loop","src/core/connection.cpp")],
  [("cq_head, cq_tail, cq_lock","hand-over queue","src/core/connection.cpp")], ["accepted sockets"])

p("C20", "Signal handlers do only what is safe at any instant",
  "A signal may arrive at any instruction; its handler therefore neither reads nor changes cache contents, connections or the free list, nor calls anything that allocates memory, takes a lock, runs a program or uses buffered output, and it leaves errno as it found it. "
  "What a signal asks for (clean-up, shutdown, monitoring updates) is recorded and carried out by the event loop.",
  ["schedules"], "all instants at which a signal can be delivered",
  "The instant a signal is delivered is not under a test's control, and only SIGINT and SIGTERM are ever sent by tests.",
  [tim, sig, db],
  [("timer_handler, flush_handler, child_handler","src/core/timer.cpp"),("abort_handler","src/core/signal_handle.cpp")],
  [("stop_soon","shutdown request","src/core/connection.cpp")], ["SIGUSR1, SIGALRM, SIGCHLD, SIGTERM"])

p("C21", "Serving one client never blocks the others",
  "Every socket the event loop reads or writes is non-blocking, and no step of serving requests sleeps, waits for a process to end without a no-wait flag, takes a file lock or performs a blocking socket call; only writing a snapshot may run a program. "
  "A socket operation that would block leaves the connection open and is retried when the socket is ready.",
  ["schedules"], "all clients that stall in the middle of a request or response",
  "A stalled client is a schedule; the scenarios' clients read and write promptly.",
  [conn, http, resp, db],
  [("connection_handle_accept (accept4)","src/core/connection.cpp"),("connection_non_blocking","src/core/connection.cpp"),("http_read_handle, http_write_handle, http_respond_contentbody","src/core/http.cpp")],
  [], ["latency of other clients"])

p("C22", "Closing a connection releases all it holds and forgets it",
  "Whichever way a connection ends (client close, error, protocol violation, monitoring timeout, shutdown), what its request holds is released first, its unsent output is freed, it is taken off the list of connections and its socket is closed once. "
  "A closed connection is never used again, neither by an event that was already collected nor from the monitoring list.",
  ["schedules","histories"], "all ways and moments a connection can end",
  "Use after close needs an event collected in the same round as the close; tests do not arrange that.",
  [conn, http, pmon, resp],
  [("connection_remove","src/core/connection.cpp"),("http_cleanup","src/core/http.cpp"),("connection_cleanup","src/core/connection.cpp")],
  [("connections","set of open connections","src/core/connection.cpp")], ["heap, descriptors"])

p("C23", "Each monitoring subscriber gets the full, ordered heartbeat stream",
  "A subscriber is put on the monitoring list exactly once, when its stream starts, and taken off exactly once, when it ends; the list stays ordered by the time each is due, so that serving from its head never delays another subscriber. "
  "Each due subscriber is sent the next number of its own sequence, starting from 0, followed by a newline, and is scheduled one fixed interval later. "
  "A subscriber that has not taken the previous number by then is disconnected.",
  ["histories","schedules"], "all arrivals, departures and stalls of subscribers",
  "No automated test in the suite opens a monitoring stream.",
  [pmon],
  [("monitoring_add, monitoring_destroy, monitoring_check","src/core/http_parse_mon.cpp"),("monitoring_init","src/core/http_parse_mon.cpp")],
  [("mon_head, mon_tail","list of subscribers in due order","src/core/http_parse_mon.cpp")], ["GET /conn on the monitoring port"])

p("C24", "Every documented option is accepted and takes effect",
  "Every option the usage text lists is accepted in each listed spelling, takes a value exactly when the text shows one, and sets its own setting and no other; every setting is consulted where the documentation says it acts. "
  "An unknown option ends with the usage text and a failure status.",
  ["configurations"], "all combinations of options",
  "The test runner starts the server with three fixed options.",
  [sett, main, "README.md"],
  [("settings_parse_arguments","src/core/settings.cpp"),("print_usage","src/core/settings.cpp")],
  [("settings","parsed settings","src/core/settings.h")], ["command line"])

p("C25", "A failed system call is never taken for a result",
  "The result of every read, write, seek, send, open, fork, bind, listen or wait made while serving or storing is checked for failure before it is used as a count, descriptor, position or process, and the failure ends the request, the snapshot or the start-up instead of being counted as progress. "
  "In particular a failed or short write of a body is never acknowledged as stored.",
  ["fault_sequences"], "every system call failing at every point",
  "The tests run on a healthy disk and network; no call ever fails.",
  [db, pcache, resp, http, conn, tim, main],
  [("http_cache_handle_request_body","src/core/http_parse_cache.cpp"),("full_write","src/core/db.cpp"),("http_respond_contentbody","src/core/http_respond.cpp")],
  [], ["responses under fault injection"])

p("C26", "Every buffer allocated while serving is freed exactly once",
  "The copy of a table name or key that a request allocates is, on every way the request can go, either kept as the name of the new table or entry or freed once; neither leaked nor used after being freed. "
  "A response built in allocated memory is freed once it is sent or its connection closed. "
  "Each node of the free list and of the hand-over queue is freed once, when it is taken out.",
  ["inputs","histories"], "all requests and ways they end",
  "A leak of a few bytes per request, or a use after free, changes no response the tests look at.",
  [db, pcache, pmon, resp, http, conn],
  [("http_key_lookup","src/core/http_parse_cache.cpp"),("db_*_get_*","src/core/db.cpp"),("http_write_handle","src/core/http.cpp")],
  [("output_buffer_free","owned output buffer","src/core/connection_structures.h")], ["heap"])

p("C27", "The server listens exactly where it was told to, or does not start",
  "Each address given on the command line becomes one listening, non-blocking socket of the right family, address and port for the right service (cache or monitoring). "
  "An address that cannot be parsed or bound stops the start-up with an error; it never silently becomes a wildcard or another address.",
  ["configurations","fault_sequences"], "all bind arguments and failures",
  "The tests bind one IPv4 address.",
  [sett, conn, main],
  [("parse_binds","src/core/settings.cpp"),("connection_open_listener, connection_open_bind, connection_setup","src/core/connection.cpp")],
  [("scache_listeners","listening sockets","src/core/connection.cpp")], ["listening sockets"])

p("C28", "The PID file names the running server and admits only one",
  "With a PID file configured, the server holds an exclusive lock on the file while it runs, refuses to start if another instance holds it, and writes the process id of the serving process, also when daemonised. "
  "At an orderly exit the file is removed unless leaving it was asked for.",
  ["configurations","schedules"], "all start-up modes and concurrent starts",
  "No test uses a PID file or daemon mode.",
  [main],
  [("write_pid, fork_off, main","src/server/scache.cpp")],
  [], ["PID file"])

# --- properties the family cannot decide here -------------------------------------------------
p("C40", "What was stored is what is read back",
  "A GET that returns 200 delivers, byte for byte, the body of the most recent completed PUT to that key that was not since deleted, expired or evicted.",
  ["inputs","histories","schedules"], "all bodies, histories and interleavings",
  "Equality over histories; scenarios compare a few small bodies.",
  [db, pcache, resp], [("PUT and GET data paths","src/core/http_parse_cache.cpp, src/core/http_respond.cpp")])
p("C41", "Concurrent requests on a key take effect one after the other",
  "For every set of overlapping requests on one key there is an order of their effects, consistent with real time, that explains every response.",
  ["schedules","histories"], "all overlapping requests", "Linearizability of histories; four scenarios overlap two requests each.",
  [db, pcache], [("single-threaded event loop","src/core/connection.cpp")])
p("C42", "A crash loses at most what came after the last snapshot",
  "After a crash at any point and a restart, every entry served is one that the last complete snapshot contained, with the value it had then.",
  ["crash_points"], "all crash points", "No test kills and restarts the server.",
  [db], [("db_index_flush, db_load_from_save","src/core/db.cpp")])
p("C43", "Hashing spreads keys and matches MurmurHash3",
  "The hash of a key equals the reference MurmurHash3 x86-32 value with the fixed seed, on every input length and alignment, so that saved file names stay valid across builds.",
  ["inputs"], "all keys", "No test checks the hash values.",
  [CORE+"hash.cpp"], [("MurmurHash3_x86_32","src/core/hash.cpp")])
p("C44", "Expired data and heartbeats are handled in time",
  "An expired entry's storage is reclaimed within a bounded time of its expiry, and each monitoring subscriber gets its number within a bounded delay of being due, at any load.",
  ["schedules","histories"], "all loads", "Timing under load is not tested.",
  [db, pmon, tim], [("db_expire_cursor","src/core/db.cpp"),("monitoring_check","src/core/http_parse_mon.cpp")])
p("C45", "A table listing contains every key of the table",
  "A listing that is not limited returns every key that is in the table throughout the listing, and no key that is not in the table at any time during it.",
  ["histories","schedules"], "all tables, slot layouts and concurrent changes", "One scenario lists a table of two keys.",
  [resp], [("http_respond_listing","src/core/http_respond.cpp")])

p("C46", "A start restores exactly what the saved index says",
  "Each record of a saved index is restored with the table, key, storage place, size, expiry and file number saved in it, a record is left out only when its storage no longer exists, and any index file whatever is read without leaving the loader's buffers.",
  ["inputs","histories"], "all index files", "No test restarts the server, so the loader is never run on anything but an empty directory.",
  [db], [("db_load_from_save","src/core/db.cpp")])

ids = [x["id"] for x in P]; assert len(ids) == len(set(ids))
for x in P: assert len(x["title"]) <= 80, x["id"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
