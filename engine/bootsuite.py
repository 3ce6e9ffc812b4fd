"""Start-up: the listeners, the command line, the process and its PID file.  Each system call may fail; what start-up
must not do after a failure, and what must hold when the server starts to serve, are the rules."""
import os, time, re, itertools
from evsuite import *
import evsuite, world
INET, INET6, UNIX = 2, 10, 1
NONBLOCK = 0o4000
UNROLL = 0

class Boot(Ev):
    def start(self):
        st = State(); st.frames = []; return st
    def exits(self, E, st, a):
        c = a[0] if a else K(1)
        if st.g.get('failed') and c.__class__ is Lin and st.current(c) == Z: self.R(E, st, 'exit-status', ('C27', 'C28', 'C24'), 'the start-up fails (%s) with a status of success' % st.g['failed'])
        return []
    def x_exit(self, E, st, a, I): self.ob('ends of the start-up'); return self.exits(E, st, a)
    x__exit = x__Exit = x_quick_exit = x_exit
    def x_abort(self, E, st, a, I): return []
    def fails(self, st, what):
        s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno')); s2.g['failed'] = what; return s2
    def okfail(self, st, what, v=Z): return [(st, v), (self.fails(st, what), MONE)]
    # ---- what an address is copied from
    segs = {}
    def seg(self, s, n):
        k = (sid(s), n)
        if k not in self.segs: self.segs[k] = fresh(0, INF, 'the first %d bytes of an address' % n)
        return self.segs[k]
    def wide(self, st, p):
        """the whole address that begins where p points"""
        if p.__class__ is not Ptr or not p.f.const: return None
        for k, v in st.mem.get(p.o, {}).items():
            if k[0] == p.f.c * 8 and k[1] >= 800 and v.__class__ is Lin and v.one(): return v
        return None
    def segcopy(self, E, st, d, s, n):
        v = self.wide(st, s)
        if v is None: return None
        libc.touch(E, st, d, n, 'write'); E.h.access(E, st, s, n, 'read')
        if d.__class__ is Ptr and d.f.const and n.__class__ is Lin and n.const: st.cells(d.o)[(d.f.c * 8, n.c * 8)] = self.seg(v, n.c)
        return [(st, d)]
    def x_memcpy(self, E, st, a, I): return self.segcopy(E, st, *a) or libc.m_memcpy(E, st, a, I)
    x_memmove = x_memcpy
    def x_strncpy(self, E, st, a, I): return self.segcopy(E, st, *a) or [(st, a[0])]
    def x_strcpy(self, E, st, a, I): return self.segcopy(E, st, a[0], a[1], K(108)) or libc.m_strcpy(E, st, a, I)
    def load(self, E, st, o, off, w, t):
        if off.__class__ is int and w < 800:
            c = st.mem.get(o, {})
            if (off, w) not in c:
                for k, v in list(c.items()):
                    if k[0] == off and k[1] >= 800 and v.__class__ is Lin and v.one(): st.cells(o)[(off, w)] = self.seg(v, w // 8); break

class Listen(Boot):
    def sk(self, st, fd):
        for i, r in enumerate(st.g.get('sk', ())):
            if self.eqp(st, r[0], fd): return i, dict(r[1])
        return None, None
    def sset(self, st, i, **kw):
        l = list(st.g['sk']); d = dict(l[i][1]); d.update(kw); l[i] = (l[i][0], tuple(d.items())); st.g['sk'] = tuple(l)
    def x_socket(self, E, st, a, I):
        s2 = self.fails(st, 'socket'); fd = fresh(0, (1 << 31) - 1, 'socket'); ty = st.current(a[1])
        d = dict(af=st.current(a[0]), nb=int(ty.const and bool(ty.c & NONBLOCK)), stream=int(ty.const and ty.c & 15 == 1))
        st.g['sk'] = st.g.get('sk', ()) + ((fd, tuple(d.items())),); self.ob('sockets created')
        return [(st, fd), (s2, MONE)]
    def x_close(self, E, st, a, I):
        i, d = self.sk(st, a[0])
        if i is not None: self.sset(st, i, closed=1)
        return [(st, Z)]
    def x_fcntl(self, E, st, a, I):
        i, d = self.sk(st, a[0]); c = st.current(a[1])
        if c == K(3): s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno')); return [(st, K(2 | (NONBLOCK if d and d.get('nb') else 0))), (s2, MONE)]
        if c == K(4) and i is not None:
            s2 = self.fails(st, 'fcntl'); v = st.current(a[2])
            self.sset(st, i, nb=int(v.const and bool(v.c & NONBLOCK))); return [(st, Z), (s2, MONE)]
        s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno')); return [(st, Z), (s2, MONE)]
    def x_ioctl(self, E, st, a, I):
        i, d = self.sk(st, a[0]); s2 = self.fails(st, 'ioctl')
        if i is not None and st.current(a[1]) == K(0x5421): self.sset(st, i, nb=1)
        return [(st, Z), (s2, MONE)]
    def x_setsockopt(self, E, st, a, I):
        i, d = self.sk(st, a[0]); s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno'))
        if i is not None and st.current(a[1]) == Z and st.current(a[2]) == K(19): s2.g['failed'] = 'setsockopt'; self.sset(st, i, transparent=1)
        return [(st, Z), (s2, MONE)]
    hs = {}
    def x_htons(self, E, st, a, I):
        v = st.current(a[0])
        if v.__class__ is not Lin: v = fresh(0, 65535, 'port')
        self.hs.setdefault(v, fresh(0, 65535, 'htons')); return [(st, self.hs[v])]
    x___bswap_16 = x_htons
    def x_unlink(self, E, st, a, I):
        v = self.wide(st, a[0])
        if v is None or not any(b['af'] == UNIX and (self.eqp(st, v, self.seg_of(b)) or v == self.seg(b['addr'], 108)) for b in self.binds): self.R(E, st, 'unlink', ('C27',), 'something else than the path to listen on is removed')
        s2 = st.copy(); return [(st, Z), (s2, MONE)]
    def seg_of(self, b): return b['addr']
    def x_chmod(self, E, st, a, I): return self.okfail(st, 'chmod')
    def x_bind(self, E, st, a, I):
        i, d = self.sk(st, a[0]); s2 = self.fails(st, 'bind'); self.ob('sockets bound')
        if i is None: self.R(E, st, 'bind-what', ('C27',), 'something else than a new socket is bound'); return [(st, Z), (s2, MONE)]
        p = a[1]
        if p.__class__ is not Ptr: self.R(E, st, 'bind-what', ('C27',), 'a socket is bound to no address'); return [(st, Z)]
        g = lambda off, w, t: st.current(E.load(st, (p.o, p.f, off, w), t))
        ln = st.current(a[2]); which = None
        for k, b in enumerate(self.binds):
            if not self.eqp(st, g(0, 16, 'u16'), K(b['af'])) : continue
            n, size, off = {INET: (4, 16, 32), INET6: (16, 28, 64), UNIX: (108, 110, 16)}[b['af']]
            c = st.mem.get(p.o, {}).get((off, n * 8)); v = st.current(c) if c.__class__ is Lin else None
            w = self.wide(st, Ptr(p.o, K(off // 8))) if b['af'] == UNIX else None
            if not (v is not None and v == self.seg(b['addr'], n) or w is not None and w == b['addr']): continue
            which = k
            if b['af'] != UNIX:
                pv = g(16, 16, 'u16'); hp = self.hs.get(st.current(b['port']))
                if hp is None or not self.eqp(st, pv, hp): self.R(E, st, 'bind-port', ('C27',), 'a listener is bound to another port than the one given')
            if not (ln.const and ln.c == size): self.R(E, st, 'bind-length', ('C27',), 'the length of the address of a listener is not that of its kind')
            if d['af'] != K(b['af']): self.R(E, st, 'bind-family', ('C27',), 'the socket of a listener is of another family than its address')
        if which is None: self.R(E, st, 'bind-address', ('C27',), 'a listener is bound to another address than the one given')
        self.sset(st, i, bound=which if which is not None else 'other'); return [(st, Z), (s2, MONE)]
    def x_listen(self, E, st, a, I):
        i, d = self.sk(st, a[0]); s2 = self.fails(st, 'listen')
        if i is None: self.R(E, st, 'listen-what', ('C27',), 'something else than a new socket is listened on'); return [(st, Z)]
        if d.get('bound') is None: self.R(E, st, 'listen-unbound', ('C27',), 'a socket that is not bound is listened on (any address, any port)')
        b = st.current(a[1])
        if b.const and b.c <= 0: self.R(E, st, 'listen-backlog', ('C27',), 'a listener has no queue')
        self.sset(st, i, listening=1); return [(st, Z), (s2, MONE)]

def field_of(e, rec):
    """the field of a record an expression designates"""
    while e.__class__ is tuple and e:
        if e[0] == '.' and e[5] == rec: return e[6]
        if e[0] in ('.', '&', 'padd', '*', 'idx', 'L', 'decay', 'cast'): e = e[1]
        elif e[0] == 'c': e = e[2]
        else: return None
    return None

def whole(p):
    """the object of a pointer to its start"""
    return p.o if p.__class__ is Ptr and p.f == Z else None
class Cmd(Boot):
    signed = False
    minlen = 0
    """the command line: one option at a time"""
    def __init__(self, P): super().__init__(P); self.addro = P.field('scache_bind', 'addr')['o'] // 8; self.stubs = set()
    def call(self, E, st, name, args, I):
        if name.split('::')[-1].split('/')[0] in self.stubs:      # what it makes of its argument is decided on its own (see binds)
            for a in args:
                if a.__class__ is Ptr and a.o[0] == 'G' and a.f.const and self.P.globals.get(a.o[1], {}).get('t') == 'r:scache_settings':
                    for n in ('binds', 'num'):
                        f = self.P.field('scache_binds', n); k = a.f.c * 8 + f['o']
                        st.cells(a.o)[(k, f['w'])] = Ptr(self.mobj(st, 'listeners', 'scache_bind', fresh(1, 1 << 40, 'size'))) if n == 'binds' else fresh(1, 1 << 20, 'number of listeners')
            return [(st, fresh(-INF, INF, 'result'))]
        return super().call(E, st, name, args, I)
    def getopt(self, E, st, a):
        self.table = a; todo = st.g.get('todo', ())
        if not todo: return [(st, MONE)]
        st.g['todo'] = todo[1:]; o = ('G', 'g:optarg'); st.info.setdefault(o, Info('global', 'p:i8', K(8)))
        t = ('M', 'optarg%d' % len(todo)); st.info[t] = Info('heap', 'i8', fresh(1, 1 << 20, 'length of the argument'), 'live', 'lazy', 'argument'); st.mem[t] = {}; st.cells(o)[(0, 64)] = Ptr(t); self.optobj = t
        return [(st, K(todo[0]))]
    def x_getopt_long(self, E, st, a, I): return self.getopt(E, st, a)
    x_getopt = x_getopt_long_only = x_getopt_long
    def x_printf(self, E, st, a, I):
        t = a[0].o[1] if a and a[0].__class__ is Ptr and a[0].o[0] == 'str' else ''
        if 'sage' in t: st.g['usage'] = t
        return [(st, fresh(0, 1 << 20, 'printed'))]
    def x_puts(self, E, st, a, I): return self.x_printf(E, st, a, I)
    def x_fprintf(self, E, st, a, I): return self.x_printf(E, st, a[1:], I)
    def x_fputs(self, E, st, a, I): return self.x_printf(E, st, a, I)
    def exits(self, E, st, a): self.ended.append((st, a[0] if a else K(1))); return super().exits(E, st, a)
    def x_atol(self, E, st, a, I):
        r = fresh(0, (1 << 63) - 1, 'number'); st.g['conv'] = st.g.get('conv', ()) + (('atol', whole(a[0]), r),); return [(st, r)]
    x_atoll = x_atol
    def x_atoi(self, E, st, a, I):
        r = fresh(-(1 << 31), (1 << 31) - 1, 'atoi'); st.g['conv'] = st.g.get('conv', ()) + (('atoi', whole(a[0]), r),); st.g['num'] = 'bad'; return [(st, r)]
    def x_strdup(self, E, st, a, I):
        r = libc.MODELS['strdup'](E, st, a, I)
        for s, v in r:
            if v.__class__ is Ptr and a[0].__class__ is Ptr: world.ogset(s, v.o, dup=a[0].o if a[0].f == Z else None, strlen=fresh(self.minlen, 1 << 30, 'length of the text'))
        return r
    def x_strtol(self, E, st, a, I):
        out = []
        for case in ('none', 'part', 'all'):
            s = st.copy(); v = Z if case == 'none' else fresh(-(1 << 63) if self.signed else 0, (1 << 63) - 1, 'number')
            if a[1].__class__ is Ptr:
                if case == 'none': p = a[0]
                else:
                    o = ('M', 'end of ' + case); s.info[o] = Info('heap', 'i8', K(1), 'live', 'lazy', 'text'); b = Z if case == 'all' else fresh(1, 127, 'what follows'); s.mem[o] = {(0, 8): b}; p = Ptr(o)
                E.store(s, (a[1].o, a[1].f, 0, 64), p, 'p:i8')
            s.g['num'] = case
            s.g['conv'] = (('strtol', whole(a[0]), v),)
            out.append((s, v))
        return out
    x_strtoul = x_strtoll = x_strtoull = x_strtol
    def materialise(self, E, st, o, off, w, t):
        n = dict(st.og.get(o, ())).get('strlen')
        if n is not None and w == 8:
            d = st.current(K(off // 8) if off.__class__ is int else off[0].plus(off[1] // 8)).sub(st.current(n))
            if d == Z: return Z
            if st.prove_ne(d): v = fresh(-128, 127, 'character'); st.add_ne(v); return v
        return None
    # ---- the parts of an address
    def part(self, E, st, f, base, v=None):
        S = dict(st.g.get('entry', ())); self.ob('parts of addresses'); b0 = st.g.get('base')
        if b0 is not None and S and not self.eqp(st, b0, base): self.closed(E, st, S); S = {}
        if f == 'af' and 'addr' in S and ('port' in S or S.get('af') == K(UNIX)): self.R(E, st, 'bind-replaced', ('C27',), 'an address takes the place of the one before it')
        st.g['base'] = st.current(base); S[f] = v if f == 'af' and v.__class__ is Lin and v.const else 1; st.g['entry'] = tuple(sorted(S.items(), key=str))
    def parta(self, E, st, p, I, n):
        """the text of an address is stored"""
        if I is not None and I[0] == 'C' and I[4] and field_of(I[4][n], 'scache_bind') == 'addr' and p.__class__ is Ptr: self.part(E, st, 'addr', p.f.plus(-self.addro))
        elif p.__class__ is Ptr and p.o[0] == 'L': st.g['parsed'] = 1
    def closed(self, E, st, S):
        u = S.get('af') == K(UNIX)
        for f in ('af', 'addr') + (() if u else ('port',)):
            if f not in S: self.R(E, st, 'bind-part', ('C27',), 'an address is taken although its %s was not understood' % {'af': 'family', 'addr': 'text', 'port': 'port'}[f])
    def store(self, E, st, o, off, w, v, t):
        I = E.ins
        if I and I[0] == 'S':
            f = field_of(I[1], 'scache_bind')
            if f in ('af', 'port', 'addr'):
                v2 = st.current(v) if v.__class__ is Lin else v
                if f == 'port' and (not self.eqp(st, v2, Z) or st.g.get('num', 'all') != 'all'):
                    if st.g.get('num') != 'all': self.R(E, st, 'bind-port-text', ('C27',), 'a port is taken from text that is not a number')
                    if v2.__class__ is not Lin or st.lo(v2) < 0 or st.hi(v2) > 65535 or not any(self.eqp(st, v2, st.current(c[2])) for c in st.g.get('conv', ()) if c[0] == 'strtol'): self.R(E, st, 'bind-port-range', ('C27',), 'a port is taken that is not one')
                fo = self.P.field('scache_bind', f)['o'] // 8; self.part(E, st, f, K(off // 8 - fo) if off.__class__ is int else off[0].plus(off[1] // 8 - fo), v2)
                if f == 'port': st.g.pop('conv', None); st.g.pop('num', None)
    def x_inet_pton(self, E, st, a, I):
        self.ob('addresses parsed'); s0 = st.copy(); s1 = st.copy(); af = st.current(a[0]); libc.touch(E, st, a[2], K(4 if af == K(INET) else 16), 'write')
        S = dict(st.g.get('entry', ()))
        if S.get('af', 1).__class__ is Lin and af.const and 'addr' not in S and S['af'] != af: self.R(E, st, 'bind-family', ('C27',), 'an address is parsed as one of another family')
        self.parta(E, st, a[2], I, 2); self.set_errno(s0, K(97)); return [(st, K(1)), (s0, MONE), (s1, Z)]
    def x_memcpy(self, E, st, a, I):
        self.parta(E, st, a[0], I, 0)
        return libc.m_memcpy(E, st, a, I)
    x_memmove = x_memcpy
    def x_strncpy(self, E, st, a, I):
        self.parta(E, st, a[0], I, 0)
        return [(st, a[0])]
    def soft(self, E, o, k): return True
    def oob(self, E, st, o, off, size, what): pass
    def nullderef(self, E, st, where): st.dead = True

class Main(Boot):
    """the process from its start to its end"""
    def pid(self, st): return dict(st.g.get('pid', ()))
    def pset(self, st, **kw): d = self.pid(st); d.update(kw); st.g['pid'] = tuple(sorted(d.items(), key=str))
    def ispid(self, st, p): return p.__class__ is Ptr and p.o == self.pidobj and p.f == Z
    def mine(self, st, fd): return 'fd' in self.pid(st) and self.eqp(st, self.pid(st)['fd'], fd)
    def x_settings_parse_arguments(self, E, st, a, I): return [(st, None)]
    def step(self, st, n): st.g['steps'] = st.g.get('steps', ()) + (n,)
    def x_http_templates_init(self, E, st, a, I): self.step(st, 'templates'); return [(st, None)]
    def x_monitoring_init(self, E, st, a, I): self.step(st, 'monitoring'); return [(st, None)]
    def x_signal_handler_install(self, E, st, a, I): self.step(st, 'signals'); return [(st, None)]
    def x_monitoring_close(self, E, st, a, I): return [(st, None)]
    def x_timer_cleanup(self, E, st, a, I): return [(st, None)]
    def x_connection_cleanup(self, E, st, a, I): self.step(st, 'cleanup'); return [(st, None)]
    def x_timer_setup(self, E, st, a, I): st.g['timerfd'] = st.current(a[0]); return [(st, None)]
    def alone(self, E, st, what):
        if self.sc['pidfile'] and not self.pid(st).get('locked'): self.R(E, st, 'pid-late', ('C28',), '%s before it is known that no other instance runs' % what)
        if st.g.get('who') == 'parent': self.R(E, st, 'parent-serves', ('C28', 'C24'), 'the process that only starts the server goes on to serve')
        if st.g.get('failed'): self.R(E, st, 'failed-goes-on', ('C28', 'C24') if st.g['failed'] != 'eventfd' else ('C23',), 'the start-up goes on although %s failed' % st.g['failed'])
    def x_db_open(self, E, st, a, I):
        self.alone(E, st, 'the database is opened'); self.step(st, 'open')
        if a[0] != Ptr(self.dbobj): self.R(E, st, 'db-path', ('C24',), 'the database is opened somewhere else than the setting says')
        return [(st, K(1))]
    def x_db_close(self, E, st, a, I):
        if 'cleanup' not in st.g.get('steps', ()): self.R(E, st, 'close-order', ('C06', 'C22'), 'the database is closed before the connections')
        self.step(st, 'close'); return [(st, None)]
    def x_connection_setup(self, E, st, a, I):
        self.alone(E, st, 'the listeners are opened'); self.step(st, 'listen')
        for p, n in zip(a, ('bind_cache', 'bind_monitor')):
            if p != Ptr(self.S, K(self.sf[n]['o'] // 8)): self.R(E, st, 'setup-args', ('C27', 'C24'), 'the listeners are opened for other addresses than those of the settings')
        return [(st, None)]
    def x_fork(self, E, st, a, I):
        s0 = st.copy(); s2 = self.fails(st, 'fork'); st.g['who'] = 'parent'; s0.g['who'] = 'child'; s0.g.pop('mypid', None); s0.g['forked'] = 1; self.pset(s0, **({'wrote': 0} if self.pid(s0).get('wrote') else {})); self.ob('processes started')
        if not self.sc['daemon_mode']: self.R(E, st, 'daemon', ('C24',), 'the server goes to the background although this was not asked for')
        return [(st, fresh(1, 1 << 22, 'pid')), (s0, Z), (s2, MONE)]
    def x_daemon(self, E, st, a, I):
        s2 = self.fails(st, 'daemon'); st.g['who'] = 'child'; st.g['forked'] = 1; st.g.pop('mypid', None); self.pset(st, **({'wrote': 0} if self.pid(st).get('wrote') else {}))
        if st.current(a[1]) == Z: st.g['out'] = 1
        return [(st, Z), (s2, MONE)]
    def x_getpid(self, E, st, a, I):
        if 'mypid' not in st.g: st.g['mypid'] = fresh(1, 1 << 22, 'own pid')
        return [(st, st.g['mypid'])]
    def x_open(self, E, st, a, I):
        fd = fresh(3, 1 << 20, 'descriptor')
        if self.ispid(st, a[0]):
            s2 = self.fails(st, 'open'); fl = st.current(a[1])
            if fl.const and fl.c & 512: self.R(E, st, 'pid-truncated', ('C28',), 'the PID file is emptied before it is known that no other instance runs')
            self.pset(st, fd=fd); return [(st, fd), (s2, MONE)]
        s2 = self.fails(st, 'open'); return [(st, fd), (s2, MONE)]
    x_open64 = x_open
    def x_creat(self, E, st, a, I): return self.x_open(E, st, [a[0], K(512), a[1]], I)
    def x_flock(self, E, st, a, I):
        if not self.mine(st, a[0]): return [(st, Z)]
        s2 = self.fails(st, 'flock'); op = st.current(a[1]); s3 = self.fails(st, 'flock'); s3.cells(ERRNO)[(0, 32)] = K(11)
        if op.const and op.c & 8: self.pset(st, locked=0)
        elif op.const and op.c & 2:
            self.pset(st, locked=1)
            if not op.c & 4: self.R(E, st, 'pid-waits', ('C28',), 'a second instance waits for the first to end instead of refusing to start')
        return [(st, Z), (s2, MONE), (s3, MONE)]
    def x_ftruncate(self, E, st, a, I):
        if self.mine(st, a[0]) and not self.pid(st).get('locked'): self.R(E, st, 'pid-truncated', ('C28',), 'the PID file is emptied before it is known that no other instance runs')
        return self.okfail(st, 'ftruncate')
    def text(self, E, st, p, fmt, args):
        f = fmt.o[1] if fmt.__class__ is Ptr and fmt.o[0] == 'str' else ''
        return bool(re.match(r'%l?l?[du]\\n?$|%l?l?[du]\n?$', f)) and len(args) == 1 and 'mypid' in st.g and args[0].__class__ is Lin and self.eqp(st, args[0], st.g['mypid'])
    def x_snprintf(self, E, st, a, I):
        n = fresh(2, 12, 'length of the text')
        if a[0].__class__ is Ptr: world.ogset(st, a[0].o, pidtext=int(self.text(E, st, a[0], a[2], a[3:])), textlen=n)
        return [(st, n)]
    def x_sprintf(self, E, st, a, I): return self.x_snprintf(E, st, [a[0], Z] + list(a[1:]), I)
    def x_strlen(self, E, st, a, I):
        n = dict(st.og.get(a[0].o, ())).get('textlen') if a[0].__class__ is Ptr else None
        return [(st, n)] if n is not None else libc.m_strlen(E, st, a, I)
    def wrote(self, E, st, ok):
        if not self.pid(st).get('locked'): self.R(E, st, 'pid-unlocked', ('C28',), 'the PID file is written before it is known that no other instance runs')
        if not ok: self.R(E, st, 'pid-text', ('C28',), 'what is written to the PID file is not the process id of the server')
        self.pset(st, wrote=1)
    def x_write(self, E, st, a, I):
        n = st.current(a[2]); s2 = self.fails(st, 'write')
        if self.mine(st, a[0]):
            g = dict(st.og.get(a[1].o, ())) if a[1].__class__ is Ptr else {}
            self.wrote(E, st, g.get('pidtext') and self.eqp(st, n, g['textlen']))
        return [(st, n), (s2, MONE)]
    def x_dprintf(self, E, st, a, I):
        s2 = self.fails(st, 'write')
        if self.mine(st, a[0]): self.wrote(E, st, self.text(E, st, None, a[1], a[2:]))
        return [(st, fresh(2, 12, 'printed')), (s2, MONE)]
    def x_close(self, E, st, a, I):
        if self.mine(st, a[0]): self.pset(st, locked=0, closed=1)
        return [(st, Z)]
    def x_fclose(self, E, st, a, I): return [(st, Z)]
    def x_dup2(self, E, st, a, I):
        t = st.current(a[1]); s2 = self.fails(st, 'dup2')
        if t in (K(1), K(2)):
            st.g['out' if t == K(1) else 'err'] = 1
            if self.sc['daemon_output']: self.R(E, st, 'output-lost', ('C24',), 'the output is redirected although it was to be kept')
        return [(st, t), (s2, MONE)]
    def x_chdir(self, E, st, a, I): return self.okfail(st, 'chdir')
    def x_setsid(self, E, st, a, I): return [(st, fresh(1, 1 << 22, 'session'))]
    def x_isatty(self, E, st, a, I): s2 = st.copy(); return [(st, K(1)), (s2, Z)]
    def x_eventfd(self, E, st, a, I): st.g['efd'] = fresh(3, 1 << 20, 'eventfd'); return [(st, st.g['efd'])]
    def x_unlink(self, E, st, a, I):
        if self.ispid(st, a[0]):
            if not st.g.get('served'): self.R(E, st, 'pid-removed', ('C28',), 'the PID file is removed while the server is to run')
            if self.sc['leavepidfile']: self.R(E, st, 'pid-removed', ('C28', 'C24'), 'the PID file is removed although it was to be left')
            if not self.pid(st).get('locked'): self.R(E, st, 'pid-not-ours', ('C28',), 'the PID file is removed after the lock on it was given up: it may be that of another instance')
            st.g['unlinked'] = 1
        return [(st, Z)]
    x_remove = x_unlink
    def x_connection_event_loop(self, E, st, a, I):
        self.ob('starts of service'); d = self.pid(st); sc = self.sc; R = lambda r, p, m: self.R(E, st, r, p, m); self.alone(E, st, 'requests are served')
        if sc['pidfile']:
            if not d.get('wrote'): R('pid-missing', ('C28',), 'the server runs without its own process id in the PID file')
            if d.get('closed') or not d.get('locked'): R('pid-lock', ('C28',), 'the server runs without the lock on its PID file')
        elif d: R('pid-uncalled', ('C24',), 'a PID file is made that was not asked for')
        if sc['daemon_mode'] and not st.g.get('forked'): R('daemon', ('C24',), 'the server stays in the foreground although it was to run as a daemon')
        if sc['daemon_mode'] and not sc['daemon_output'] and not st.g.get('out'): R('output-kept', ('C24',), 'the output of a daemon is kept although this was not asked for')
        if not sc['daemon_mode'] and (st.g.get('out') or st.g.get('err')): R('output-lost', ('C24',), 'the output is redirected although the server does not run as a daemon')
        for n, p in (('open', ('C06',)), ('listen', ('C27',)), ('templates', ('C01',)), ('monitoring', ('C23',)), ('signals', ('C20',))):
            if n not in st.g.get('steps', ()): R('not-ready', p, 'requests are served before the preparation is complete (%s)' % n)
        if 'efd' in st.g and not ('timerfd' in st.g and self.eqp(st, st.g['timerfd'], st.g['efd']) and a[1].__class__ is Lin and self.eqp(st, a[1], st.g['efd'])): R('timer-fd', ('C23',), 'the timer does not wake the event loop')
        st.g['served'] = 1; return [(st, None)]
    def ended(self, E, st):
        sc = self.sc; R = lambda r, p, m: self.R(E, st, r, p, m); self.ob('ends of the server')
        if not st.g.get('served'): R('not-served', ('C24',), 'the server ends without having served, and without an error'); return
        if 'close' not in st.g.get('steps', ()): R('not-closed', ('C06',), 'the database is not closed at the end')
        if sc['pidfile'] and not sc['leavepidfile'] and not st.g.get('unlinked'): R('pid-left', ('C28',), 'the PID file is left at an orderly end')

class TextEngine(Engine):
    """what a text holds, and the addresses parsed so far, are forgotten from one round of a loop to the next"""
    def loophead(self, st, F, b, heads):
        for o, i in list(st.info.items()):
            if o[0] == 'M' or o[0] not in ('G', 'L', 'str'):
                if i.status != 'freed' and i.type != 'p:i8': st.mem[o] = {}; st.own.add(o); st.info[o] = i.upd(default='lazy')
        ends = [st.current(x) for g in st.og.values() for k, x in g if k == 'strlen']; pos = []
        for n, v in st.frames[-1].items():
            if v.__class__ is Lin:
                for e in ends:
                    d = st.current(v).sub(e)
                    if d.const and -1 <= d.c <= 1: pos.append((n, str(d.c)))
        st.g['pos'] = tuple(sorted(pos))
        base = st.g.pop('base', None)
        if base is not None:
            # kept as the distance from a variable
            for n, v in sorted(st.frames[-1].items()):
                if v.__class__ is Ptr and v.o[0] == 'H' or v.__class__ is Ptr and 'bind' in str(F.vt.get(n, '') if hasattr(F, 'vt') else n + 'bind'):
                    d = v.f.sub(st.current(base))
                    if d.const: st.g['rel'] = (n, str(d.c)); break
            else: st.g['base'] = base
        r = super().loophead(st, F, b, heads)
        if r is not None: r.g.pop('pos', None)
        if r is not None and 'rel' in r.g:
            n, c = r.g.pop('rel'); v = r.frames[-1].get(n)
            if v.__class__ is Ptr: r.g['base'] = v.f.plus(-int(c))
        return r

    def landmarks(self, st): return {q for g in st.og.values() for k, x in g if k == 'strlen' for q, _ in st.current(x).t}
    def textloads(self, F, b):
        k = (F.key, b)
        if k not in self.tl:
            out = []
            def walk(e):
                if e.__class__ is tuple:
                    if len(e) == 3 and e[0] == 'L' and e[2] == 'i8' and e[1][0] in ('*', '[]', 'idx') and e[1] not in out: out.append(e[1])
                    for x in e[1:]: walk(x)
                elif e.__class__ is list:
                    for x in e: walk(x)
            ins, term = F.blocks[b]; walk(list(ins)); walk(term); self.tl[k] = out
        return self.tl[k]
    tl = {}
    def block(self, st, F, b):
        """whether a character looked at is the last one is decided first"""
        ss = [st]
        for lv in self.textloads(F, b):
            new = []
            for s in ss:
                try: o, f, x, w = self.loc(s.copy(), lv)
                except AnalysisBroken: new.append(s); continue
                n = dict(s.og.get(o, ())).get('strlen') if o is not None else None
                if n is None or x.__class__ is not int: new.append(s); continue
                d = s.current(f.plus(x // 8)).sub(s.current(n))
                for k in (0, 1):
                    e = d.plus(k)
                    if e.const or s.prove_ne(e): continue
                    s1 = s.copy()
                    if s1.add_eq(e) is not False: new.append(s1)
                    if (s.add_le(e.plus(1)) if s.prove(e) else s.add_ne(e)) is False: s = None; break
                if s is not None: new.append(s)
            ss = new
        out = []
        for s in ss: out += list(super().block(s, F, b))
        return out

class BootSuite(EvSuite):
    def world(self, W):
        self.W = W; W.suite = self; self.E = (TextEngine if isinstance(W, Cmd) else Engine)(self.P, W, 200); self.E.models = dict(libc.MODELS); self.E.unroll = 3000
    def rep(self, s, rule, props, msg): self.W.report(self.E, s, rule, props, msg, where=self.where)
    # ---- the listeners
    def listeners(self):
        P = self.P; setup = self.key('connection_setup'); bs = P.sizeof('r:scache_bind'); F = {n: P.field('scache_bind', n) for n in ('af', 'addr', 'port', 'transparent')}
        L = [g for g, d in P.globals.items() if d['t'] == 'r:listener_collection' and d.get('def')]
        if len(L) != 1: raise AnalysisBroken('anchor: the listeners')
        lf = {n: P.field('listener_collection', n) for n in ('listeners', 'listener_count')}; ef = {n: P.field('listener_entry', n) for n in ('fd', 'type')}; es = P.sizeof('r:listener_entry')
        for fams in [((INET,), ()), ((INET6,), ()), ((UNIX,), ()), ((), (INET,)), ((INET, INET6), (INET,)), ((INET,), (INET, UNIX)), ((), ())]:
            self.world(Listen(P)); W, E = self.W, self.E; st = W.start(); W.binds = []; W.segs = {}; W.hs = {}; args = []
            for kind, fs in zip(('cache_listener', 'mon_listener'), fams):
                o = W.mobj(st, 'addresses', 'scache_bind', max(1, len(fs)) * bs); st.cells(o)
                for i, af in enumerate(fs):
                    a, p, t = fresh(0, INF, 'address'), fresh(0, 65535, 'port'), fresh(0, 1, 'transparent')
                    for n, v in (('af', K(af)), ('addr', a), ('port', p), ('transparent', t)): st.cells(o)[(i * bs * 8 + F[n]['o'], F[n]['w'])] = v
                    W.binds.append(dict(af=af, addr=a, port=p, type=W.ec[kind], transparent=t))
                b = W.mobj(st, 'addresses to listen on', 'scache_binds', P.sizeof('r:scache_binds'))
                fb, fn = P.field('scache_binds', 'binds'), P.field('scache_binds', 'num')
                st.cells(b)[(fb['o'], fb['w'])] = Ptr(o) if fs else Z; st.cells(b)[(fn['o'], fn['w'])] = K(len(fs)); args.append(Ptr(b))
            for s, v in self.go(st, setup, args, 'listening on %d addresses' % len(W.binds)):
                R = lambda rule, msg: self.rep(s, rule, ('C27',), msg); W.ob('successful start-ups')
                if s.g.get('failed'): R('failed-goes-on', 'the start-up goes on although %s failed for a listener' % s.g['failed'])
                g = ('G', L[0]); n = s.current(E.load(s, (g, Z, lf['listener_count']['o'], lf['listener_count']['w']), 'u32')); p = E.load(s, (g, Z, lf['listeners']['o'], 64), 'p:r:listener_entry')
                if n != K(len(W.binds)): R('listener-count', 'the number of listeners is not that of the addresses given'); continue
                left = list(range(len(W.binds))); used = []
                for i in range(len(W.binds)):
                    if p.__class__ is not Ptr: R('listener-count', 'the listeners are not kept'); break
                    fd = E.load(s, (p.o, p.f, i * es * 8 + ef['fd']['o'], ef['fd']['w']), 'i32'); ty = s.current(E.load(s, (p.o, p.f, i * es * 8 + ef['type']['o'], ef['type']['w']), 'i32'))
                    k, d = W.sk(s, fd); W.ob('listeners')
                    if d is None or d.get('closed'): R('listener-fd', 'a listener is not the socket that was opened for it'); continue
                    if k in used: R('listener-fd', 'two listeners share a socket')
                    used.append(k)
                    if not d.get('listening'): R('not-listening', 'a listener is not put to listen')
                    if not d.get('nb'): self.rep(s, 'not-nonblocking', ('C27', 'C21'), 'a listener is left in blocking mode')
                    if not d.get('stream'): R('not-stream', 'a listener is not a stream socket')
                    b = d.get('bound')
                    if b.__class__ is int and b in left: left.remove(b)
                    elif b.__class__ is int: R('listener-twice', 'an address is listened on twice and another one not at all')
                    if b.__class__ is int and ty != K(W.binds[b]['type']): R('listener-type', 'a listener serves another service than the one its address was given for')
                    if b.__class__ is int and not s.current(W.binds[b]['transparent']).const: 
                        pass
    # ---- the process
    def process(self):
        P = self.P; main = self.key('main'); F = {f['n']: f for f in P.records['scache_settings']['fields']}; S = ('G', 'g:settings'); off = lambda n: (F[n]['o'], 64 if F[n]['t'][0] == 'p' else P.sizeof(F[n]['t']) * 8)
        for bits in itertools.product((0, 1), repeat=4):
            sc = dict(zip(('pidfile', 'leavepidfile', 'daemon_mode', 'daemon_output'), bits))
            self.world(Main(P)); W, E = self.W, self.E; W.sc = sc; W.S = S; W.sf = F; st = W.start(); st.info[S] = Info('global', 'scache_settings', K(P.sizeof('r:scache_settings'))); st.info.setdefault(ERRNO, Info('global', 'i32', K(4)))
            W.pidobj = W.mobj(st, 'name of the PID file', 'i8', 64); W.dbobj = W.mobj(st, 'path of the database', 'i8', 64)
            c = st.cells(S); c[off('pidfile')] = Ptr(W.pidobj) if sc['pidfile'] else Z; c[off('db_file_path')] = Ptr(W.dbobj)
            for n in ('leavepidfile', 'daemon_mode', 'daemon_output'): c[off(n)] = K(sc[n])
            for s, v in self.go(st, main, [fresh(1, 100, 'argc'), Ptr(W.mobj(st, 'argv', 'p:i8', 800))], 'main with ' + (', '.join(k for k in sc if sc[k]) or 'no options')): W.ended(E, s)
    # ---- the command line
    def options(self):
        P = self.P; key = self.key('settings_parse_arguments'); G = ('G', 'g:settings')
        if 'g:settings' not in P.globals: raise AnalysisBroken('anchor: settings')
        fs = P.records['scache_settings']['fields']; leaves = {}
        def init(st):
            vals = {}
            for f in fs:
                if f['t'] == 'r:scache_binds':
                    for n in ('binds', 'num'):
                        b = P.field('scache_binds', n); st.cells(G)[(f['o'] + b['o'], b['w'])] = Z if n == 'binds' else fresh(0, 1000, 'addresses so far')
                    vals[f['n']] = None
                elif f['t'][0] == 'p': v = fresh(1 << 20, 1 << 40, 'initial ' + f['n']); st.cells(G)[(f['o'], 64)] = v; vals[f['n']] = v
                elif f['t'] == 'b': st.cells(G)[(f['o'], 8)] = Z; vals[f['n']] = Z
                else: v = fresh(0, 255, 'initial ' + f['n']); st.cells(G)[(f['o'], P.sizeof(f['t']) * 8)] = v; vals[f['n']] = v
            return vals
        stubs = set()
        def run(opts, minlen=0, opaque=False):
            while opaque:
                try: return run(opts, minlen)
                except AnalysisBroken as x:
                    m = re.match(r'loop at (?:\S*::)?(\w+) block', str(x))
                    if not m or m.group(1) in stubs or m.group(1) == key.split('/')[0].split('::')[-1]: raise
                    stubs.add(m.group(1))
            self.world(Cmd(P)); self.W.stubs = stubs; W, E = self.W, self.E; W.minlen = minlen; W.signed = ord('b') in opts or ord('B') in opts; E.unroll = UNROLL; E.maxhead = 3000; st = W.start(); st.info[G] = Info('global', 'scache_settings', K(P.sizeof('r:scache_settings'))); vals = init(st); W.ended = []; W.table = None
            st.g['todo'] = tuple(opts); r = self.go(st, key, [fresh(1, 100, 'argc'), Ptr(W.mobj(st, 'argv', 'p:i8', 800))], 'option ' + ''.join('-' + chr(o) if o > 32 else str(o) for o in opts))
            return r, vals, W, E
        return run, fs, G
    def binds(self):
        """addresses on the command line; texts of any length from several lower bounds, of which each leaves out only shorter ones"""
        run, fs, G = self.options(); seen = []; worlds = []
        for minlen in (0, 1, 3, 6):
            self.findings_off = 1
            try: r, vals, W, E = run([ord('b')], minlen)
            except (AnalysisBroken, Budget): continue
            for s, v in r:
                S = dict(s.g.get('entry', ())); W.ob('addresses taken')
                if S: W.closed(E, s, S)
                else: self.rep(s, 'bind-part', ('C27',), 'an address is taken that was not understood')
            seen.append({f.msg for f in W.findings.values()}); worlds.append(W)
        if not seen: raise AnalysisBroken('the parsing of addresses does not stabilise')
        keep = set.intersection(*seen)
        for W in worlds:
            for k, f in list(W.findings.items()):
                if f.msg not in keep: del W.findings[k]
    def usage(self):
        """the usage text against the tables of options, and what each option sets"""
        P = self.P; run, fs, G = self.options(); names = [f['n'] for f in fs]
        r, vals, W, E = run([ord('?')]); R = lambda rule, msg, s=None: self.rep(s or State(), rule, ('C24',), msg)
        for s, v in r: R('unknown-accepted', 'the start-up goes on after an unknown option', s)
        for s, c in W.ended:
            if not s.g.get('usage'): R('unknown-usage', 'an unknown option ends without the usage text', s)
            if s.current(c) == Z: R('unknown-status', 'an unknown option ends with a status of success', s)
        texts = {s.g['usage'] for s, c in W.ended if s.g.get('usage')}
        if len(texts) != 1 or W.table is None: raise AnalysisBroken('the usage text was not found')
        a = W.table; opts = a[2].o[1][a[2].f.c:] if a[2].__class__ is Ptr and a[2].o[0] == 'str' else None
        if opts is None: raise AnalysisBroken('the short options are not a constant')
        short = {}; i = 0
        while i < len(opts):
            if opts[i] in '+-:' : i += 1; continue
            n = 0
            while opts[i + 1 + n:i + 2 + n] == ':': n += 1
            short[opts[i]] = n; i += 1 + n
        longs = self.longs(a[3]) if len(a) > 3 else {}
        # the lines of the text
        lines = []
        for l in texts.pop().split('\n'):
            m = re.match(r'\s+(-.*?)\s+-\s+(\S.*)$', l)
            if not m: continue
            sp = []
            for t in re.split(r'\s{2,}', m.group(1).strip()):
                w = t.split(None, 1); sp.append((w[0], len(w) > 1))
            lines.append((sp, m.group(2)))
        if len(lines) < 3: raise AnalysisBroken('the usage text was not understood')
        effects = {}; used = {}
        def effect(code):
            if code in effects: return effects[code]
            r, vals, W, E = run([code], 0, True); out = []
            for s, v in r:
                ch = set()
                for f in fs:
                    if f['t'] == 'r:scache_binds':
                        bf = P.field('scache_binds', 'binds'); x = s.mem[G].get((f['o'] + bf['o'], 64)); ch |= {f['n']} if x != Z else set()
                    else:
                        w = 64 if f['t'][0] == 'p' else P.sizeof(f['t']) * 8
                        x = s.mem[G].get((f['o'], w))
                        x = s.current(x) if x.__class__ is Lin else x
                        y = s.current(vals[f['n']])
                        if x != y and not (f['n'] == 'db_file_path' and f['n'] in self.defaulted(run)): ch.add(f['n'])
                        if x != y: s.g[('v', f['n'])] = x
                out.append((s, ch))
            effects[code] = out, W; return out, W
        for sp, d in lines:
            codes = set()
            for name, arg in sp:
                W.ob('spellings of options')
                if name.startswith('--'):
                    if name[2:] not in longs: R('not-accepted', 'the option %s of the usage text is not accepted' % name); continue
                    has, code = longs[name[2:]]
                else:
                    if len(name) != 2 or name[1] not in short: R('not-accepted', 'the option %s of the usage text is not accepted' % name); continue
                    has, code = short[name[1]], ord(name[1])
                codes.add(code)
                if has != (1 if arg else 0): R('option-value', 'the option %s %s' % (name, 'does not take the value the usage text shows' if arg else 'takes a value that the usage text does not show'))
            if len(codes) > 1: R('option-spellings', 'the spellings of %s are different options' % sp[0][0])
            for c in codes:
                out, W2 = effect(c); name = sp[0][0]
                if not out: R('option-refused', 'the option %s always ends the start-up' % name); continue
                chs = set(frozenset(ch) for s, ch in out); W.ob('effects of options')
                for s, ch in out:
                    if not ch: R('option-ignored', 'the option %s sets nothing' % name, s)
                    elif len(ch) > 1: R('option-more', 'the option %s sets more than one setting (%s)' % (name, ', '.join(sorted(ch))), s)
                    else:
                        f = next(iter(ch)); used.setdefault(f, set()).add(c); self.value(s, fs, f, sp[0][1], name, W2, R)
        for f, cs in used.items():
            if len(cs) > 1: R('option-shared', 'different options set %s' % f)
        for f in names:
            if f not in used: R('setting-unset', 'no option of the usage text sets %s' % f)
        # the values without options
        r, vals, W, E = run([])
        for s, v in r:
            for f in fs:
                if f['t'] == 'r:scache_binds': continue
                x = s.mem[G].get((f['o'], 64 if f['t'][0] == 'p' else P.sizeof(f['t']) * 8)); x = s.current(x) if x.__class__ is Lin else x
                if f['n'] != 'db_file_path' and x != s.current(vals[f['n']]): R('default-changed', 'without options %s is changed' % f['n'], s)
        self.defaults(lines, effects, fs, G, R)
        # every setting is consulted by the server
        read = set()
        def walk(e, file):
            if e.__class__ is tuple:
                if e and e[0] == '.' and len(e) > 6 and e[5] == 'scache_settings': read.add(e[6])
                for x in e: walk(x, file)
            elif e.__class__ is list:
                for x in e: walk(x, file)
        import flow
        up = set(flow.Flow(P).reach({self.key('main')})) if hasattr(flow.Flow, 'reach') else set(P.functions)
        skip = {key_ for key_ in P.functions if P.functions[key_]['file'] == P.functions[self.key('settings_parse_arguments')]['file']}
        for k in P.functions:
            if k in skip: continue
            F = P.fn(k)
            for ins, t in F.blocks: walk(list(ins), k); walk(t, k)
        for f in names:
            W.ob('settings'); 
            if f not in read: R('setting-unused', 'the setting %s is consulted nowhere' % f)
    def defaults(self, lines, effects, fs, G, R):
        """the default the usage text gives for each option is the value its setting starts with"""
        P = self.P; init = P.globals['g:settings'].get('init', {}).get('as', ())
        def strip(e):
            while e.__class__ is dict and e.get('k') in ('cast', 'paren'): e = e['e']
            return e
        nul = [f for f, e in zip(fs, init) if f['t'][0] == 'p' and strip(e).get('k') == 'int']
        self.world(Cmd(P)); W, E = self.W, self.E; st = W.start(); st.info[G] = Info('global', 'scache_settings', K(P.sizeof('r:scache_settings')))
        for f in fs:
            if f in nul: st.cells(G)[(f['o'], 64)] = Z
        ends = self.go(st, self.key('settings_parse_arguments'), [fresh(1, 100, 'argc'), Ptr(W.mobj(st, 'argv', 'p:i8', 800))], 'no options')
        for sp, d in lines:
            m = re.search(r'\(default: ([^)]*)\)', d)
            codes = [c for c in effects if any(n == '-' + chr(c) for n, _ in sp)]
            if not m or not codes: continue
            f = next(iter({x for s, ch in effects[codes[0]][0] for x in ch}), None)
            if f is None: continue
            i = [x['n'] for x in fs].index(f); t = fs[i]['t']; e = strip(init[i]) if i < len(init) else {'k': 'int', 'v': 0}; want = m.group(1); W.ob('documented defaults')
            if t[0] == 'p':
                for s, v in ends:
                    x = s.mem[G].get((fs[i]['o'], 64)); x = self.text(dict(s.og.get(x.o, ())).get('dup', x.o)) if x.__class__ is Ptr else x
                    if x.__class__ is not tuple and not (x == Z): continue
                    got = None if x == Z else x[1] if x[0] == 'str' else '?'
                    if want.startswith('/') and got != want or want in ('no', 'none') and got is not None: R('default', 'the default of %s is not the documented one' % sp[0][0], s)
            elif t == 'b':
                if want in ('no', 'none') and e.get('v', 0) != 0: R('default', 'the default of %s is not the documented one' % sp[0][0])
            elif t[0] != 'r' and re.match(r'[\d.]+$', want) and e.get('k') in ('int', 'flt'):
                if abs(e['v'] - float(want)) > 1e-6 and abs(e['v'] * 100 - float(want)) > 1e-6: R('default', 'the default of %s is not the documented one' % sp[0][0])
    def defaulted(self, run): return ()
    def text(self, o):
        c = self.P.table(o[1]) if o[0] == 'G' and self.P.globals.get(o[1], {}).get('t', '').endswith(':i8') else None
        if not c: return o
        s = ''
        while (len(s) * 8, 8) in c and c[len(s) * 8, 8][1]: s += chr(c[len(s) * 8, 8][1] % 256)
        return ('str', s)
    def value(self, s, fs, f, arg, name, W, R):
        """the value is the argument of the option itself"""
        d = next(x for x in fs if x['n'] == f); x = s.g.get(('v', f)); opt = W.optobj
        if d['t'] == 'b' and x is not None and x == Z: R('option-off', 'the option %s does not turn its setting on' % name, s)
        if d['t'][0] == 'p' and arg:
            ok = x.__class__ is Ptr and x.f == Z and (x.o == opt or dict(s.og.get(x.o, ())).get('dup') == opt)
            if not ok: R('option-other-value', 'the option %s does not set its argument' % name, s)
        if d['t'] in ('u64', 'i64') and arg:
            ok = any(c[1] == opt and W.eqp(s, x, s.current(c[2])) for c in s.g.get('conv', ()))
            if not ok: R('option-other-value', 'the option %s does not set the number given' % name, s)
    def longs(self, p):
        """the table of long options, from its initialiser"""
        P = self.P; g = p.o[1] if p.__class__ is Ptr and p.o[0] == 'G' else None
        init = P.globals.get(g, {}).get('init') if g else None
        if not init: raise AnalysisBroken('the table of long options was not found')
        def strip(e):
            while e.__class__ is dict and e.get('k') in ('cast', 'paren'): e = e['e']
            return e
        out = {}
        for row in strip(init).get('as', ()):
            c = [strip(x) for x in strip(row).get('as', ())]
            if not c or c[0].get('k') != 'str': continue
            v = lambda e: e.get('v') if e.get('k') in ('int', 'chr', 'char') else None
            if v(c[1]) is None or v(c[3]) is None: raise AnalysisBroken('the table of long options')
            out[c[0].get('v', c[0].get('s'))] = (v(c[1]), v(c[3]))
        return out

def run(P, parts):
    S = BootSuite(P); acc = {}; obl = {}; fns = set()
    worlds = []; w0 = S.world
    def world_(W): w0(W); worlds.append((W, S.E))
    S.world = world_
    for p in parts: getattr(S, p)()
    for W, E in worlds:
        acc.update(W.findings)
        for k, v in W.obl.items(): obl[k] = obl.get(k, 0) + v
        for k, v in E.fns.items(): S.E.fns.setdefault(k, v)
    S.W.findings.clear(); S.W.findings.update(acc); S.W.obl.clear(); S.W.obl.update(obl)
    return S
if __name__ == '__main__':
    import prog, sys
    t = time.time(); S = run(prog.Program('release'), tuple(sys.argv[1:])); print(S.stats[:12], len(S.stats), time.time() - t)
    seen = set()
    for f in S.W.findings.values():
        if (f.rule, f.where, f.msg) in seen: continue
        seen.add((f.rule, f.where, f.msg)); print(f.props, f.text()[:3000])
    print(S.W.obl, getattr(S.E, 'unknown', {}))
