from mkseed import seed
seed('c07-reuse-block-early', 'C07', [('core/db.cpp', '''	//Remove from LRU, but only if not writing (as not, yet added)
	if (!entry->writing) {
		db_lru_remove_node(entry);
	}
''', '''	//Remove from LRU, but only if not writing (as not, yet added)
	if (!entry->writing) {
		db_lru_remove_node(entry);
	}

	//The value can not be found any more, its block can be used again
	if (!IS_SINGLE_FILE(entry) && entry->block >= 0) {
		db_block_free(entry->block);
		entry->block = -1;
	}
''')], 'a GET that is still sending its value from the block file while the key is overwritten',
 'the block of an overwritten value is put on the free list while a reader still uses it; the new value is stored over it', '''
def demo():
    s = Server()
    s.req(put(b'/t/a', b'A' * 4000)); s.req(put(b'/t/z', b'Z'))
    c = s.conn(); c.sendall(b'GET /t/a HTTP/1.1\\r\\n'); time.sleep(0.2)
    s.req(put(b'/t/a', b'B' * 4000))
    c.sendall(b'\\r\\n'); r = rd(c)
    return code(r) == b'200' and body(r) == b'A' * 4000
''')
seed('c08-overwrite-size', 'C08', [('core/db.cpp', '''		db.db_size_bytes += (int64_t)data_length - entry->data_length;
''', '''		db.db_size_bytes += data_length;
''')], 'a PUT that sends Content-Length twice with different values',
 'the first declared size of a value stays in the database size for ever', '''
def demo():
    s = Server()
    s.req(b'PUT /t/a HTTP/1.1\\r\\nContent-Length: 3\\r\\nContent-Length: 5\\r\\n\\r\\nhello')
    s.req(get(b'/t/a', b'DELETE'))
    return s.stats().get('DB Size Bytes') == '0'
''')
seed('c09-get-write-no-hit', 'C09', [('core/db.cpp', '''	//LRU hit
	db_lru_hit(entry);
''', '''	//LRU hit, only worth it while nobody else is reading the entry
	if (entry->refs == 0) {
		db_lru_hit(entry);
	}
''')], 'a GET hit on an entry that another connection is reading at the same time',
 'the second reader does not move the entry to the most recent end', '''
def demo():
    s = Server('--database-max-size', '30000', '--database-lru-clear', '0')
    for k in (b'a', b'b', b'c'): s.req(put(b'/t/' + k, b'x' * 4000))
    c = s.conn(); c.sendall(b'GET /t/a HTTP/1.1\\r\\n'); time.sleep(0.2)
    s.req(get(b'/t/b')); s.req(get(b'/t/c')); s.req(get(b'/t/a'))   # order now b c a
    c.sendall(b'\\r\\n'); rd(c); c.close()
    for i in range(7): s.req(put(b'/t/n%d' % i, b'x' * 4000))
    for i in range(300):
        if s.stats().get('DB Size Bytes') and int(s.stats()['DB Size Bytes']) <= 32000: break
        s.req(put(b'/t/n6', b'x' * 4000))
    return code(s.req(get(b'/t/a'))) == b'200'
''')
seed('c04-keycmp', 'C04', [('core/db.cpp', '''	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
		DEBUG("[#] Unable to look up key: ");
''', '''	if (entry == NULL || memcmp(key, entry->key, entry->key_length < length ? entry->key_length : length) != 0) {
		DEBUG("[#] Unable to look up key: ");
''')], 'two keys whose hashes collide and one of which is a prefix of the other',
 'a DELETE removes an entry whose key is only a prefix of the requested one', '''
import struct
M = 0xffffffff
def rotl(x, r): return ((x << r) | (x >> (32 - r))) & M
def unrotl(x, r): return rotl(x, 32 - r)
def demo():
    import re
    src = open('src/core/hash.h').read() + open('src/core/db.cpp').read() + open('src/core/config.h').read()
    m = re.search(r'HASH_SEED\\s*[=]?\\s*(0x[0-9a-fA-F]+|\\d+)', src); seed = int(m.group(1), 0)
    def mur(b):
        h = seed; n = len(b) // 4
        for i in range(n):
            k = struct.unpack_from('<I', b, 4 * i)[0]
            k = rotl(k * 0xcc9e2d51 & M, 15) * 0x1b873593 & M; h = (rotl(h ^ k, 13) * 5 + 0xe6546b64) & M
        return h
    def fin(h, n):
        h ^= n; h ^= h >> 16; h = h * 0x85ebca6b & M; h ^= h >> 13; h = h * 0xc2b2ae35 & M; return h ^ (h >> 16)
    # hash(p) with |p|=8, hash(p+q) with |q|=8: pick the last word of q so that the states match
    inv1 = pow(0xcc9e2d51, -1, 1 << 32); inv2 = pow(0x1b873593, -1, 1 << 32); inv5 = pow(5, -1, 1 << 32)
    ok = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~!*+;:@&=,$')
    import itertools
    al = b'abcdefghijklmnopqrstuvwxyz0123456789'
    p = b'prefixed'
    hp = mur(p); target = hp ^ 8 ^ 16   # state before length is mixed in
    for t in itertools.product(al, repeat=4):
        h1 = mur(p + bytes(t))
        # need rotl(h1 ^ k,13)*5+c == target
        x = unrotl((target - 0xe6546b64) * inv5 & M, 13); k = x ^ h1
        k = k * inv2 & M; k = unrotl(k, 15); k = k * inv1 & M
        w = struct.pack('<I', k)
        if all(c in ok for c in w):
            q = p + bytes(t) + w; break
    else: print('no collision'); return False
    assert fin(mur(p), 8) == fin(mur(q), 16)
    s = Server(); s.req(put(b'/t/' + p, b'value')); s.req(put(b'/t/other', b'x'))
    s.req(get(b'/t/' + q, b'DELETE'))
    return body(s.req(get(b'/t/' + p))) == b'value'
''')
seed('c05-softdelete-file', 'C05', [('core/db.cpp', '''	//If this is contained within a file, delete
	if (IS_SINGLE_FILE(entry)) {
		db_entry_delete(entry);
	}

	//Dont need the key any more, deleted
''', '''	//If this is contained within a file, delete (when nobody is using it any more)
	if (IS_SINGLE_FILE(entry) && entry->refs == 0) {
		db_entry_delete(entry);
	}

	//Dont need the key any more, deleted
''')], 'overwriting a value that is stored in its own file while another connection is reading it',
 'the data file of the replaced value is never removed', '''
def files(s): return sum(len(f) for d, _, f in os.walk(s.dir + '/files'))
def demo():
    s = Server(); s.req(put(b'/t/a', b'A' * 20000)); n = sum(len(f) for _, _, f in os.walk(s.dir))
    c = s.conn(); c.sendall(b'GET /t/a HTTP/1.1\\r\\n'); time.sleep(0.2)
    s.req(put(b'/t/a', b'B' * 20000)); c.sendall(b'\\r\\n'); rd(c); c.close(); time.sleep(0.2)
    return sum(len(f) for _, _, f in os.walk(s.dir)) == n
''')
seed('c06-table-slot', 'C06', [('core/db.cpp', '''	entry = db_entry_new(table);
	entry->block = -2;
	entry->data_length = 0;
	entry->key = key;
	entry->key_length = length;
	entry->hash = hash;

	//Take a reference if this is the first entry (released when size == 0)
	if (is_first_in_table) {
		db_table_incref(table);
	}
''', '''	entry = db_entry_new(table);
	entry->block = -2;
	entry->data_length = 0;
	entry->key = key;
	entry->key_length = length;
	entry->hash = hash;

	//Take a reference if this is the first entry (released when size == 0)
	if (is_first_in_table || kh_size(table->cache_hash_set) == 0) {
		db_table_incref(table);
	}
''')], 'overwriting the only key of a table',
 'the table takes a second reference for its entries that nothing gives back: it is never freed and, once empty, never disappears', '''
def demo():
    s = Server()
    s.req(put(b'/t/a', b'1')); s.req(put(b'/t/a', b'2')); s.req(get(b'/t/a', b'DELETE'))
    s.req(put(b'/t/a', b'3')); s.req(get(b'/t/a', b'DELETE'))
    r = s.req(get(b'/t'))
    # enough rounds to notice the memory that is kept for every round
    def rss(): return int([l for l in open('/proc/%d/status' % s.p.pid) if l.startswith('VmRSS')][0].split()[1])
    c = s.conn(); 
    def rounds(n):
        for i in range(n):
            c.sendall(put(b'/t%d/a' % (i % 50), b'1') + put(b'/t%d/a' % (i % 50), b'2') + get(b'/t%d/a' % (i % 50), b'DELETE'))
            got = b''
            while got.count(b'HTTP/1.1 ') < 3: got += c.recv(65536)
    rounds(3000); a = rss(); rounds(20000); b = rss()
    return code(r) == b'404' and b - a < 1500
''')
