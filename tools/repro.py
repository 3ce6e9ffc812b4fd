#!/usr/bin/env python3
"""Concrete reproductions of the defects recorded in known_findings.txt (triage only: no check runs this).
usage: repro.py SERVER_BINARY [scenario...]   each scenario prints OK/BAD"""
import os, sys, socket, subprocess, tempfile, time, shutil, signal
BIN = sys.argv[1]
PORT = 18800

class Server:
    def __init__(self, *opts, dir=None, mon=False, bind=None):
        global PORT
        PORT += 2
        self.port = PORT
        self.dir = dir or tempfile.mkdtemp(prefix='repro')
        cmd = [BIN, '-o', '--database-file-path', self.dir, '--bind', bind or '127.0.0.1:%d' % self.port]
        if mon: cmd += ['--monitor', '127.0.0.1:%d' % (self.port + 1)]
        self.log = open(self.dir + '/log', 'ab')
        self.p = subprocess.Popen(cmd + list(opts), stdout=self.log, stderr=self.log)
        for _ in range(100):
            time.sleep(0.05)
            if self.p.poll() is not None: break
            try:
                socket.create_connection(('127.0.0.1', self.port)).close(); break
            except OSError: pass
    def conn(self, port=None):
        s = socket.create_connection(('127.0.0.1', port or self.port)); s.settimeout(2); return s
    def req(self, data, s=None):
        s = s or self.conn(); s.sendall(data); return rd(s)
    def stats(self):
        r = self.req(b'GET / HTTP/1.1\r\n\r\n')
        return dict(l.split(': ') for l in r.decode(errors='replace').split('\r\n') if ': ' in l)
    def alive(self):
        time.sleep(0.2); return self.p.poll() is None
    def stop(self, sig=signal.SIGTERM):
        if self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(10)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
        return self.p.returncode
    def clean(self):
        self.stop(); shutil.rmtree(self.dir, ignore_errors=True)

def rd(s):
    out = b''
    try:
        while True:
            d = s.recv(65536)
            if not d: break
            out += d
            if b'\r\n\r\n' in out:
                h, b = out.split(b'\r\n\r\n', 1)
                for l in h.split(b'\r\n'):
                    if l.lower().startswith(b'content-length:') and len(b) >= int(l.split(b':')[1]): return out
    except socket.timeout: pass
    except ConnectionError: out += b'<RESET>'
    return out
def put(k, v, hdr=b''): return b'PUT ' + k + b' HTTP/1.1\r\n' + hdr + b'Content-Length: %d\r\n\r\n' % len(v) + v
def get(k, m=b'GET'): return m + b' ' + k + b' HTTP/1.1\r\n\r\n'

def f_pipeline():
    s = Server(); c = s.conn()
    c.sendall(put(b'/t/a', b'1') + get(b'/t/a') + get(b'/t/b')); time.sleep(0.3)
    try: r = c.recv(65536)
    except socket.timeout: r = b''
    ok = r.count(b'HTTP/1.1 ') == 3
    s.clean(); return ok
def f_delete_twice():
    s = Server(); s.req(put(b'/t/a', b'1')); s.req(put(b'/t/b', b'1'))
    a, b = s.conn(), s.conn()
    a.sendall(b'DELETE /t/a HTTP/1.1\r\n'); b.sendall(b'DELETE /t/a HTTP/1.1\r\n'); time.sleep(0.2)
    a.sendall(b'\r\n'); rd(a); b.sendall(b'\r\n'); rd(b)
    al = s.alive(); st = s.stats() if al else {}
    s.clean(); return al and st.get('DB Keys') == '1' and st.get('DB Size Bytes') == '1'
def f_table_delete_twice():
    s = Server(); s.req(put(b'/t/a', b'1'))
    a, b = s.conn(), s.conn()
    a.sendall(b'DELETE /t HTTP/1.1\r\n'); b.sendall(b'DELETE /t HTTP/1.1\r\n'); time.sleep(0.2)
    a.sendall(b'\r\n'); rd(a); b.sendall(b'\r\n'); rd(b)
    al = s.alive(); s.clean(); return al
def f_put_into_deleted_table():
    s = Server(); s.req(put(b'/t/a', b'1'))
    a = s.conn(); a.sendall(b'PUT /t/'); time.sleep(0.2); s.req(get(b'/t', b'DELETE'))
    a.sendall(b'b HTTP/1.1\r\nContent-Length: 1\r\n\r\nx'); rd(a)
    al = s.alive(); st = s.stats() if al else {}
    s.clean(); return al and st.get('DB Keys') == '0' and st.get('DB Size Bytes') == '0'
def f_table_recreated():
    s = Server(); s.req(put(b'/t/a', b'1'))
    a = s.conn(); a.sendall(b'GET /t/'); time.sleep(0.2)
    s.req(get(b'/t', b'DELETE')); s.req(put(b'/t/z', b'zz')); a.close(); time.sleep(0.3)
    r = s.req(get(b'/t/z')) if s.alive() else b''
    s.clean(); return r.endswith(b'zz')
def f_delete_sole_during_upload():
    s = Server(); a = s.conn()
    a.sendall(b'PUT /t/a HTTP/1.1\r\nContent-Length: 9000\r\n\r\nxxxx'); time.sleep(0.2)
    s.req(get(b'/t/a', b'DELETE')); a.close(); time.sleep(0.3)
    al = s.alive(); s.clean(); return al
def f_table_delete_keys():
    s = Server(); s.req(put(b'/t/a', b'1')); s.req(put(b'/t/b', b'1')); s.req(get(b'/t', b'DELETE'))
    st = s.stats() if s.alive() else {}
    s.clean(); return st.get('DB Keys') == '0'
def f_loaded_blocks():
    s = Server(); d = s.dir; s.req(put(b'/t/a', b'1')); s.stop()
    s = Server(dir=d); s.req(get(b'/t/a', b'DELETE')); st = s.stats()
    s.clean(); return st.get('DB Blocks Free') == '1/1'
def f_listing_empty():
    s = Server(); a = s.conn(); a.sendall(b'PUT /t/'); time.sleep(.2); s.req(get(b'/t'))
    al = s.alive(); s.clean(); return al
def f_content_length_overflow():
    s = Server(); r = s.req(b'PUT /t/a HTTP/1.1\r\nContent-Length: 4294967295\r\n\r\nabc')
    al = s.alive(); s.clean(); return al and r.startswith(b'HTTP/1.1 400')
def f_split_number():
    s = Server(); a = s.conn(); a.sendall(b'PUT /t/a HTTP/1.1\r\nContent-Length: 12 '); time.sleep(.3)
    a.sendall(b'5\r\n\r\nabcde'); r = rd(a); s.clean(); return not r.startswith(b'HTTP/1.1 200')
def f_dup_content_length():
    s = Server(); a = s.conn(); a.sendall(b'PUT /t/a HTTP/1.1\r\nContent-Length: 9000\r\nContent-Length: 5000\r\n\r\n' + b'x' * 5000); rd(a); a.close(); time.sleep(.2)
    n = sum(1 for f in os.listdir('/proc/%d/fd' % s.p.pid) if '/files/' in os.readlink('/proc/%d/fd/%s' % (s.p.pid, f)))
    k = sum(len(f) for _, _, f in os.walk(s.dir + '/files')); st = s.stats()
    s.clean(); return n == 0 and k == 1 and st['DB Size Bytes'] == '5000'
def f_long_key_reload():
    s = Server(); d = s.dir; k = b'/t/' + b'k' * 9000; s.req(put(k, b'v')); s.stop()
    s = Server(dir=d); al = s.alive(); r = s.req(get(k)) if al else b''
    s.clean(); return r.endswith(b'v')
def f_newline_key():
    s = Server(); d = s.dir; s.req(put(b'/t/a\nt:evil\nb:0:1:0:1:x', b'v')); s.stop()
    s = Server(dir=d); r = s.req(get(b'/evil/x')) if s.alive() else b'HTTP/1.1 200'
    s.clean(); return r.startswith(b'HTTP/1.1 404')
def f_zombie_table():
    s = Server(); a = s.conn(); a.sendall(b'PUT /t/'); time.sleep(.2); a.close(); time.sleep(.2); st = s.stats()
    s.req(get(b'/t', b'DELETE')); al = s.alive(); s.clean(); return al and st.get('DB Tables') == '0'
def f_put_busy_nolen():
    s = Server(); a = s.conn(); a.sendall(b'PUT /t/a HTTP/1.1\r\nContent-Length: 10\r\n\r\nx'); time.sleep(.2)
    r = s.req(b'PUT /t/a HTTP/1.1\r\n\r\n'); s.clean(); return r.startswith(b'HTTP/1.1 400')
def f_monitor_stalled():
    s = Server(mon=True)
    c = s.conn(s.port + 1); c.sendall(b'GET /conn HTTP/1.1\r\n\r\n'); r = c.recv(4096); al = s.alive(); s.clean(); return al and b'200' in r
def f_bad_bind():
    s = Server(bind='foo:18999'); time.sleep(.3); dead = s.p.poll() not in (None, 0); s.clean(); return dead
def f_ipv6_bind():
    s = Server(bind='[::1]:18997'); ok = False
    try: socket.create_connection(('::1', 18997)).close(); ok = True
    except OSError: pass
    s.clean(); return ok
def f_pidfile_twice():
    p = tempfile.mktemp(); a = Server('--make-pid', p); b = Server('--make-pid', p); time.sleep(.3)
    dead = b.p.poll() not in (None, 0); a.clean(); b.clean(); return dead
def f_usr1():
    s = Server(); [s.req(put(b'/t/%d' % i, b'v')) for i in range(50)]
    for _ in range(20): s.p.send_signal(signal.SIGUSR1); time.sleep(.02)
    al = s.alive() and s.req(get(b'/t/1')).endswith(b'v'); s.clean(); return al
def f_reload():
    s = Server(); d = s.dir
    for i in range(20): s.req(put(b'/t%d/k%d' % (i % 3, i), b'v%d' % i))
    s.req(put(b'/t1/big', b'B' * 9000)); s.stop()
    s = Server(dir=d); ok = all(s.req(get(b'/t%d/k%d' % (i % 3, i))).endswith(b'v%d' % i) for i in range(20)) and s.req(get(b'/t1/big')).endswith(b'B' * 9000)
    s.clean(); return ok
def f_ring_overread():
    # buffer exactly full with a non-zero read position while a body/URL is parsed
    s = Server(); c = s.conn()
    one = get(b'/t/aa'); c.sendall(one + b'GET /t/' + b'u' * (16384 - len(one) - 7)); time.sleep(.2); c.sendall(b'v' * 200); time.sleep(.2)
    al = s.alive(); s.clean(); return al
def f_partial_write():
    s = Server(); c = socket.socket(); c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096); c.connect(('127.0.0.1', s.port)); c.settimeout(3)
    c.sendall(get(b'/') * 2000); time.sleep(.5); out = b''
    try:
        while len(out) < 10000000:
            d = c.recv(65536)
            if not d: break
            out += d
    except socket.timeout: pass
    parts = out.split(b'HTTP/1.1 200 OK'); s.clean(); return len(parts) == 2001

if __name__ == '__main__':
    names = sys.argv[2:] or [n for n in globals() if n.startswith('f_')]
    for n in names:
        if not n.startswith('f_'): n = 'f_' + n
        try: r = globals()[n]()
        except Exception as e: r = False; print('   ', type(e).__name__, e)
        print('OK ' if r else 'BAD', n, flush=True)
