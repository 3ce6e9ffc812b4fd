"""Helper of the demonstrations: runs the built server on a free loopback port inside a scratch directory."""
import os, sys, socket, subprocess, tempfile, time, shutil, signal
BIN = os.path.abspath('_build/release/src/server/scache')
def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p
class Server:
    def __init__(self, *opts, dir=None, mon=False, base=True, wrap=(), env=None):
        self.port, self.mport = free_port(), free_port()
        self.dir = dir or tempfile.mkdtemp(prefix='demo')
        cmd = list(wrap) + [BIN] + (['-o', '--database-file-path', self.dir, '--bind', '127.0.0.1:%d' % self.port] if base else [])
        if mon: cmd += ['--monitor', '127.0.0.1:%d' % self.mport]
        self.log = open(self.dir + '/log', 'ab')
        self.p = subprocess.Popen(cmd + list(opts), stdout=self.log, stderr=self.log, env=env)
        for _ in range(100):
            time.sleep(0.05)
            if self.p.poll() is not None: break
            try: socket.create_connection(('127.0.0.1', self.port)).close(); break
            except OSError: pass
    def conn(self, port=None, rcv=None):
        s = socket.socket()
        if rcv: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcv)
        s.connect(('127.0.0.1', port or self.port)); s.settimeout(3); return s
    def req(self, data, s=None):
        c = s or self.conn(); c.sendall(data); r = rd(c)
        if s is None: c.close()
        return r
    def stats(self):
        r = self.req(b'GET / HTTP/1.1\r\n\r\n')
        return dict(l.split(': ', 1) for l in r.decode(errors='replace').split('\r\n') if ': ' in l)
    def alive(self):
        time.sleep(0.2); return self.p.poll() is None
    def fds(self):
        return sorted(os.readlink('/proc/%d/fd/%s' % (self.p.pid, f)) for f in os.listdir('/proc/%d/fd' % self.p.pid))
    def stop(self, sig=signal.SIGTERM):
        if self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(10)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
        return self.p.returncode
    def clean(self):
        self.stop(signal.SIGKILL); shutil.rmtree(self.dir, ignore_errors=True)
def rd(s, head=False):
    out = b''
    try:
        while True:
            d = s.recv(65536)
            if not d: break
            out += d
            if b'\r\n\r\n' in out:
                h, b = out.split(b'\r\n\r\n', 1)
                if head: return out
                for l in h.split(b'\r\n'):
                    if l.lower().startswith(b'content-length:') and len(b) >= int(l.split(b':')[1]): return out
    except socket.timeout: pass
    except ConnectionError: out += b'<RESET>'
    return out
def put(k, v, hdr=b''): return b'PUT ' + k + b' HTTP/1.1\r\n' + hdr + b'Content-Length: %d\r\n\r\n' % len(v) + v
def get(k, m=b'GET', hdr=b''): return m + b' ' + k + b' HTTP/1.1\r\n' + hdr + b'\r\n'
def body(r): return r.split(b'\r\n\r\n', 1)[1] if b'\r\n\r\n' in r else None
def code(r): return r[9:12]
def run(fn):
    ok = False
    try: ok = fn()
    except Exception as e: print('demo: %r' % e)
    finally:
        for s in list(SERVERS): s.clean()
    print('OK' if ok else 'BAD'); sys.exit(0 if ok else 1)
SERVERS = []
_i = Server.__init__
def _init(self, *a, **k): SERVERS.append(self); _i(self, *a, **k)
Server.__init__ = _init
