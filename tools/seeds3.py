from mkseed import seed
HEAD = '''
def index(s):
    try: return open(s.dir + '/index.save', 'rb').read().split(b'\\n')
    except OSError: return None
def snapshot(s):
    "asks for a snapshot in the background and waits for it"
    try: os.unlink(s.dir + '/index.save')
    except OSError: pass
    for i in range(20):
        s.req(get(b'/gc', b'ADMIN'))
        for j in range(20):
            time.sleep(0.1)
            if os.path.exists(s.dir + '/index.save') and os.path.exists(s.dir + '/blockfile.db.save'): return
'''
seed('c12-uploading-saved', 'C12', [('core/db.cpp', '''					if(ce->writing || ce->deleted) continue;
''', '''					if(ce->deleted || (ce->writing && ce->block >= 0)) continue;
''')], 'a snapshot in the background while a large value is being uploaded',
 'the incomplete value is saved as a complete one, and served after a restart', HEAD + '''
def demo():
    s = Server(); s.req(put(b'/t/whole', b'w' * 20000))
    c = s.conn(); c.sendall(b'PUT /t/half HTTP/1.1\\r\\nContent-Length: 20000\\r\\n\\r\\n' + b'h' * 7000); time.sleep(0.5)
    snapshot(s); x = index(s)
    if x is None or not any(l.endswith(b':whole') for l in x): return True
    return not any(l.endswith(b':half') for l in x)
''')
seed('c12-last-free-block', 'C12', [('core/db.cpp', '''	while(free_node != NULL){
		temp = snprintf(''', '''	while(free_node != NULL && free_node->next != NULL){
		temp = snprintf(''')], 'blocks given back (values deleted) before a snapshot',
 'one free block is missing from the index, and is never used again after a restart', HEAD + '''
def demo():
    s = Server()
    for i in range(6): s.req(put(b'/t/k%d' % i, b'small'))
    for i in range(4): s.req(get(b'/t/k%d' % i, b'DELETE'))
    time.sleep(0.3); s.stop(); x = index(s)
    if x is None: return True
    n = os.path.getsize(s.dir + '/blockfile.db.save') // 4096
    return len([l for l in x if l[:2] in (b'f:', b'b:')]) == n
''')
seed('c13-full-disk', 'C13', [('core/db.cpp', '''		ret = write(fd, buffer, buffer_length);
		if(ret == -1){
			return false;
		}
''', '''		ret = write(fd, buffer, buffer_length);
		if(ret == -1){
			return errno == EFBIG || errno == ENOSPC;
		}
''')], 'no room left while the index is being written',
 'the previous snapshot is replaced by an index that ends in the middle', HEAD + '''
import resource
def demo():
    s = Server(wrap=('sh', '-c', 'trap "" XFSZ; exec "$@"', 'x'))
    for i in range(60): s.req(put(b'/t/' + b'%03d' % i + b'k' * 100, b'L' * 6000))
    time.sleep(0.3); resource.prlimit(s.p.pid, resource.RLIMIT_FSIZE, (700, 700)); s.stop(); x = index(s)
    return x is None or (x[-1] == b'' and os.path.getsize(s.dir + '/index.save') != 700)
''')
seed('c13-stale-temp', 'C13', [('core/db.cpp', '''O_RDWR | O_CREAT | O_TRUNC | O_LARGEFILE, S_IRUSR | S_IWUSR);
	if(fd == -1){
		PWARN("Unable to flush index, unable to open file");''', '''O_RDWR | O_CREAT | O_LARGEFILE, S_IRUSR | S_IWUSR);
	if(fd == -1){
		PWARN("Unable to flush index, unable to open file");''')], 'a temporary index left behind by a server that was killed in the middle of a longer snapshot',
 'the records at its end become part of the next snapshot', HEAD + '''
def demo():
    import tempfile
    d = tempfile.mkdtemp(prefix='demo')
    with open(d + '/index.temp', 'wb') as f: f.write(b't:old\\n' + b'e:-1:5:0:1:stale\\n' * 500)
    s = Server(dir=d); s.req(put(b'/t/a', b'L' * 6000)); time.sleep(0.2); s.stop(); x = index(s)
    return x is None or (any(l.endswith(b':a') for l in x) and not any(l.endswith(b':stale') for l in x))
''')
