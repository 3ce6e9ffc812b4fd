from mkseed import seed
seed('c15-offset-wrap', 'C15', [('core/db.cpp', '''		target->position = ((off64_t)target->entry->block) * BLOCK_LENGTH;
''', '''		target->position = target->entry->block * BLOCK_LENGTH;
''')], 'a block file of more than 2 GiB',
 'values in blocks beyond the first 2 GiB are read from and written to a wrong (negative) offset', '''
def demo():
    import tempfile
    d = tempfile.mkdtemp(prefix='demo'); n = 530000
    with open(d + '/blockfile.db.save', 'wb') as f:
        f.truncate((n + 8) * 4096); f.seek(n * 4096); f.write(b'far value')
    with open(d + '/index.save', 'wb') as f: f.write(b't:t\\nb:%d:9:0:1:far\\n' % n)
    s = Server(dir=d)
    try: return body(s.req(get(b'/t/far'))) == b'far value' and s.alive()
    finally: s.clean()
''')
seed('c15-evict-narrow', 'C15', [('core/db.cpp', '''	bool do_lru = settings.max_size > 0 && settings.max_size < db.db_size_bytes;
''', '''	int over = db.db_size_bytes - settings.max_size;
	bool do_lru = settings.max_size > 0 && over > 0;
''')], 'an excess over the size limit of 2 GiB or more (a limit lowered at a restart, or many large values between two clean-ups)',
 'the excess is cut to 32 bits, can become negative, and nothing is evicted', '''
def demo():
    import tempfile
    d = tempfile.mkdtemp(prefix='demo')
    open(d + '/blockfile.db.save', 'wb').close()
    with open(d + '/index.save', 'wb') as f:
        f.write(b't:t\\n')
        for i in range(3): f.write(b'e:-1:1000000000:0:%d:k%d\\n' % (i + 1, i))
    # the data files the index names: created by a server that is asked to store the same keys
    a = Server()
    for i in range(3): a.req(put(b'/t/k%d' % i, b'L' * 5000))
    time.sleep(0.3); a.stop()
    with open(a.dir + '/index.save', 'rb') as f: idx = f.read()
    out = b''.join((b':'.join(l.split(b':')[:2] + [b'1000000000'] + l.split(b':')[3:]) if l[:2] == b'e:' else l) + b'\\n' for l in idx.split(b'\\n') if l)
    with open(a.dir + '/index.save', 'wb') as f: f.write(out)
    s = Server('--database-max-size', '1000', dir=a.dir)
    b = int(s.stats()['DB Keys']); s.req(get(b'/gc', b'ADMIN')); time.sleep(0.3); n = int(s.stats()['DB Keys'])
    shutil.rmtree(d); s.clean()
    return b != 3 or n == 0
''')
