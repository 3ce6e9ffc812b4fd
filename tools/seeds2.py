from mkseed import seed
seed('c03-abort-before-body', 'C03', [('core/http_parse_cache.cpp', '''			assert(entry != NULL);
			if (!entry->deleted) {
				db_entry_handle_delete(entry);
			}
			entry->writing = false;
''', '''			assert(entry != NULL);
			//Nothing has been stored before the first byte of the body
			if (!entry->deleted && connection->cache.target.key.position != 0) {
				db_entry_handle_delete(entry);
			}
			entry->writing = false;
''')], 'a client that goes away after the headers of a PUT and before the first byte of its body',
 'the entry of the abandoned upload stays in the table and is answered as a stored value', '''
def demo():
    s = Server(); s.req(put(b'/t/z', b'zzzz'))
    c = s.conn(); c.sendall(b'PUT /t/a HTTP/1.1\\r\\nContent-Length: 20000\\r\\n\\r\\n'); time.sleep(0.3); c.close(); time.sleep(0.3)
    return code(s.req(get(b'/t/a'))) == b'404' and s.alive()
''')
seed('c11-ttl-zero', 'C11', [('core/http_parse_cache.cpp', '''					if (ttl != 0) {
						connection->cache.target.key.entry->expires = ttl + current_time.tv_sec;
''', '''					if (ttl >= 0) {
						connection->cache.target.key.entry->expires = ttl + current_time.tv_sec;
''')], 'a PUT with X-Ttl: 0, which means no expiry', 'the value expires within a second', '''
def demo():
    s = Server(); s.req(put(b'/t/a', b'value', b'X-Ttl: 0\\r\\n')); time.sleep(2.5)
    return body(s.req(get(b'/t/a'))) == b'value'
''')
seed('c22-half-close', 'C22', [('core/connection.cpp', '''						if(connection->epollin){
							do_close = true;
''', '''						if(connection->epollin || connection->ltype == cache_connection){
							do_close = true;
''')], 'a client that half-closes its side together with its request, for an answer that is not all sent at once',
 'the connection is closed before the answer is sent', '''
def demo():
    s = Server(); s.req(put(b'/t/a', b'A' * 3000000)); c = s.conn(rcv=4096)
    os.kill(s.p.pid, signal.SIGSTOP); c.sendall(get(b'/t/a')); c.shutdown(socket.SHUT_WR); time.sleep(0.1); os.kill(s.p.pid, signal.SIGCONT)
    r = rd(c); return code(r) == b'200' and len(body(r) or b'') == 3000000
''')
seed('c23-oldest-leaves', 'C23', [('core/http_parse_mon.cpp', '''			mon_tail = connection->monitoring.prev;
			if(mon_head == NULL){
				assert(mon_tail == NULL);
				// early exit we remvoed from both ends
				return;
			}
		}
	}
''', '''			if(mon_head == NULL){
				// early exit we remvoed from both ends
				mon_tail = NULL;
				return;
			}
		}
	}
''')], 'the subscriber that is at the end of the list (the newest) leaves while another one stays',
 'the list keeps a pointer to the closed connection and the stream of the others stops', '''
def demo():
    s = Server(mon=True)
    a = s.conn(s.mport); a.sendall(b'GET /conn HTTP/1.1\\r\\n\\r\\n'); time.sleep(0.3)
    b = s.conn(s.mport); b.sendall(b'GET /conn HTTP/1.1\\r\\n\\r\\n'); time.sleep(0.3)
    b.close(); b = a; b.settimeout(1); out = b''
    for i in range(24):
        try:
            d = b.recv(1000)
            if not d: break
            out += d
        except socket.timeout: pass
        if out.count(b'\\n') >= 3 and b'\\n3\\n' in out: break
    print(out)
    return b'\\n3\\n' in out and s.alive()
''')
seed('c24-max-size-width', 'C24', [('core/settings.cpp', '''			settings.max_size = atol(optarg);
''', '''			settings.max_size = atoi(optarg);
''')], 'a size limit of 4 GiB or more', 'the limit is cut to 32 bits: 4 GiB and 100 bytes becomes 100 bytes and everything is evicted', '''
def demo():
    s = Server('--database-max-size', str(2 ** 32 + 100))
    for i in range(40): s.req(put(b'/t/k%d' % i, b'x' * 4000))
    time.sleep(1)
    for i in range(60): s.req(put(b'/t/m%d' % i, b'x' * 4000))
    time.sleep(1); s.req(put(b'/t/n', b'x'))
    return all(code(s.req(get(b'/t/k%d' % i))) == b'200' for i in range(40))
''')
seed('c27-ipv6-any', 'C27', [('core/connection.cpp', '''		memcpy(&tobind.servaddr6.sin6_addr.__in6_u, &ibind.addr, sizeof(tobind.servaddr6.sin6_addr.__in6_u));
''', '''		memcpy(&tobind.servaddr6.sin6_addr.__in6_u, &ibind.addr, sizeof(tobind.servaddr.sin_addr));
''')], 'an IPv6 address to listen on whose first four bytes are zero, such as [::1]',
 'the server listens on every address instead of the loopback address', '''
def demo():
    d = tempfile.mkdtemp(prefix='demo'); p = free_port()
    s = Server('-o', '--database-file-path', d, '--bind', '[::1]:%d' % p, base=False, dir=d)
    ok = False
    for l in open('/proc/net/tcp6'):
        f = l.split()
        if len(f) > 3 and f[3] == '0A' and f[1].endswith(':%04X' % p):
            ok = f[1].split(':')[0] == '00000000000000000000000001000000'; print(f[1])
    s.clean(); return ok
''')
seed('c28-pid-early', 'C28', [('server/scache.cpp', '''	__pid_t pid;
	if (settings.daemon_mode) {
''', '''	__pid_t pid;
	pid = getpid();
	if (settings.pidfile) {
		//Complain about another instance while there is still a terminal
		pidfd = write_pid(settings.pidfile, pid);
	}
	if (settings.daemon_mode) {
'''), ('server/scache.cpp', '''	pid = getpid();

	if (settings.pidfile) {
		pidfd = write_pid(settings.pidfile, pid);
	}

''', '''
''')], 'daemon mode together with a PID file', 'the PID file names the process that ended when the daemon was started', '''
def demo():
    d = tempfile.mkdtemp(prefix='demo'); os.chmod(d, 0o755); p = free_port(); pf = d + '/pid'
    r = subprocess.run([BIN, '-d', '-m', pf, '--database-file-path', d, '--bind', '127.0.0.1:%d' % p], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    time.sleep(0.5)
    mine = []
    for q in os.listdir('/proc'):
        if q.isdigit():
            try: c = open('/proc/%s/cmdline' % q).read()
            except OSError: continue
            if pf in c and 'scache' in c.split('\\0')[0]: mine.append(int(q))
    try: n = int(open(pf).read())
    except Exception as e: print(e); n = -1
    print(n, mine)
    for q in mine:
        try: os.kill(q, signal.SIGKILL)
        except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    return n in mine
''')
