"""The event loop, the accepting threads and the final clean-up, interpreted for every kind of event.
Connections, their set, descriptors and the hand-over queue are followed; what serves a connection
(http_read_handle, http_write_handle, http_cleanup, the connection handler) may do anything it may."""
import time, re
from absint import *
from prog import AnalysisBroken
import libc, world
from world import World, Finding, trace_of, cellof

IN, OUT, ERR, HUP, RDHUP = 1, 4, 8, 16, 0x2000
ADD, DEL, MOD = 1, 2, 3
EINTR, EAGAIN = 4, 11
SETM = re.compile(r'std::(?:unordered_)?(?:multi)?set<.*>::(\w+)$')
ITM = re.compile(r'std::(?:_Rb_tree|__detail::_\w+|__cxx\w*)\w*(?:<.*>)?::operator(\*|\+\+|->|==|!=)$')
ERRNO = ('G', 'g:errno')

class Ev(World):
    """descriptors, connections and the queue"""
    def __init__(self, P):
        super().__init__(P); F = P.field; self.ec = P.econst
        self.cf = {n: F('scache_connection', n) for n in ('output_buffer', 'output_buffer_free', 'output_length', 'client_sock', 'epollin', 'epollout', 'epollrdhup', 'is_writing', 'ltype', 'handler', 'state', 'method')}
        self.csize = P.sizeof('r:scache_connection')
        self.ef2 = {n: F('epoll_event', n) for n in ('events',)}; self.evdata = P.field('epoll_event', 'data')
        self.evsize = P.sizeof('r:epoll_event')
        self.closing = self.ec['close_connection']; self.actions = sorted({self.ec[k] for k in ('close_connection', 'registered_write', 'needs_more_read')})
        self.qrec = self.find_queue()
        self.roles = None; self.qlen = (0, 1, 2); self.nlock = 2; self.scenario = None; self.shared = set()
    def find_queue(self):
        """the list accepted sockets are handed over in: a record with a link to its own type and a socket, kept in globals"""
        P = self.P; out = []
        for g, d in P.globals.items():
            if d['t'].startswith('p:r:'):
                r = d['t'][4:]; fs = P.records.get(r, {}).get('fields', [])
                if any(f['t'] == 'p:r:' + r for f in fs) and r not in ('scache_connection',) and any('connection_ctype' in str(f.get('tn', '')) or f['n'] == 'client_sock' for f in fs): out.append((g, r))
        rs = {r for _, r in out}
        if len(rs) != 1: return None
        r = rs.pop(); fs = P.records[r]['fields']
        f = lambda p: P.field(r, next(x['n'] for x in fs if p(x)))
        return dict(rec=r, globals=[g for g, _ in out], next=f(lambda x: x['t'] == 'p:r:' + r), sock=f(lambda x: x['n'].endswith('sock') or x['n'].endswith('fd')), size=P.sizeof('r:' + r),
                    type=f(lambda x: x['n'].endswith('type')))
    # plain memory: nothing of the database invariants
    def materialise(self, E, st, o, off, w, t): return None
    def store(self, E, st, o, off, w, v, t): return None
    def load(self, E, st, o, off, w, t):
        if o[0] == 'G' and self.P.globals.get(o[1], {}).get('vol') and (not self.qrec or o[1] not in self.qrec['globals']) or o in self.shared:
            c = st.mem.get(o)
            if c is not None and off.__class__ is int and (off, w) in c:
                v = c[(off, w)]; v = st.current(v) if v.__class__ is Lin else v
                if v.__class__ is Lin and (st.prove_ne(v) or st.lo(v) >= 1): return        # a request stays until it is dealt with
                st.cells(o).pop((off, w))
    def soft(self, E, o, k): return False
    def assumed(self, E, st, a, b): return True
    def unrelated(self, E, st, s, o): return None
    def R(self, E, st, rule, props, msg): self.report(E, st, rule, props, msg, where=None)
    def uaf(self, E, st, o, what):
        k = world.og(st, o).get('k')
        self.report(E, st, 'use-after-free', ('C22', 'C26') if k == 'conn' else ('C26', 'C19'), '%s of %s after it was freed' % (what, 'a connection' if k == 'conn' else 'memory')); st.dead = True
    def badfree(self, E, st, v, e): self.report(E, st, 'bad-free', ('C22', 'C26'), e); st.dead = True
    def nullderef(self, E, st, where): self.report(E, st, 'null-pointer', ('C22', 'C17'), 'a null pointer is followed')
    def oob(self, E, st, o, off, size, what): self.report(E, st, 'bounds', ('C17',), 'an access past the end of memory')
    def freed(self, E, st, o):
        if world.og(st, o).get('k') == 'conn':
            self.ob('connections freed')
            d = world.og(st, o)
            if d.get('had') and d.get('clean') != 1: self.R(E, st, 'not-released', ('C22', 'C06'), 'a connection is freed although what its request holds was not released')
            if d.get('inset') == 1 and not st.g.get('final'): self.R(E, st, 'still-listed', ('C22',), 'a connection is freed but stays on the list of connections')
    # ---- fields
    def C(self, E, st, o, n):
        f = self.cf[n]; v = E.load(st, (o, Z, f['o'], f['w']), f['t']); return st.current(v) if v.__class__ is Lin else v
    def Cput(self, st, o, n, v): f = self.cf[n]; st.cells(o)[(f['o'], f['w'])] = v
    def set_errno(self, st, v): st.info.setdefault(ERRNO, Info('global', 'i32', K(4))); st.cells(ERRNO)[(0, 32)] = v
    def conn(self, E, st, ltype, ep, out):
        o = self.mobj(st, 'connection', 'scache_connection', self.csize)
        fd = fresh(5, (1 << 31) - 1, 'client_sock'); st.add_ne(fd)
        for n, v in (('client_sock', fd), ('epollin', K(ep[0])), ('epollout', K(ep[1])), ('epollrdhup', Z), ('ltype', K(ltype)), ('output_buffer', Z), ('output_buffer_free', Z)): self.Cput(st, o, n, v)
        world.ogset(st, o, k='conn', inset=1, had=1, fd=fd)
        if out:
            b = self.mobj(st, 'output', 'i8', fresh(1, 1 << 20, 'size')); self.Cput(st, o, 'output_buffer_free', Ptr(b)); self.Cput(st, o, 'output_buffer', Ptr(b)); world.ogset(st, o, buf=b)
        st.g['fds'] = st.g.get('fds', ()) + ((fd, 'open'),)
        return o
    def anyafter(self, E, st, o):
        """a connection after it was served"""
        out = []
        for ep in ((1, 0), (0, 1)):
            s = st.copy(); self.Cput(s, o, 'epollin', K(ep[0])); self.Cput(s, o, 'epollout', K(ep[1]))
            for n in ('handler', 'state', 'method', 'is_writing', 'output_length'): s.cells(o).pop((self.cf[n]['o'], self.cf[n]['w']), None)
            old = self.C(E, s, o, 'output_buffer_free')
            if old.__class__ is Ptr and s.info[old.o].status != 'freed': s.info[old.o] = s.info[old.o].upd(status='freed')
            s2 = s.copy(); b = self.mobj(s2, 'output', 'i8', fresh(1, 1 << 20, 'size'))
            for t, v in ((s, Z), (s2, Ptr(b))): self.Cput(t, o, 'output_buffer_free', v); self.Cput(t, o, 'output_buffer', v); out.append(t)
        return out
    def fdstate(self, st, fd):
        for f, w in st.g.get('fds', ()):
            if st.current(f) == st.current(fd) or self.eqp(st, f, fd): return w
        return None
    def setfd(self, st, fd, w):
        st.g['fds'] = tuple((f, w if self.eqp(st, f, fd) else x) for f, x in st.g.get('fds', ()))
    def eqp(self, st, a, b):
        if a.__class__ is not Lin or b.__class__ is not Lin: return a == b
        d = st.current(a).sub(st.current(b)); return d == Z
    def live(self, E, st, c, what):
        if c.__class__ is Lin: c = st.current(c)
        if c.__class__ is not Ptr: self.R(E, st, 'connection', ('C22',), '%s is called for something that is not a connection' % what); st.dead = True; return None
        if st.info[c.o].status == 'freed' or world.og(st, c.o).get('k') != 'conn':
            self.R(E, st, 'closed-used', ('C22',), 'a connection that was closed is used (%s)' % what) if st.info[c.o].status == 'freed' else self.R(E, st, 'connection', ('C22',), '%s is called for something that is not a connection' % what)
            st.dead = True; return None
        return c.o
    # ---- calls
    def event(self, E, st, *x):
        if x[0] == 'free': self.freed(E, st, x[1])
    def call(self, E, st, name, args, I):
        n = name.split('/')[0]
        f = getattr(self, 'x_' + n, None)
        if f is not None: return f(E, st, args, I)
        m = SETM.match(name)
        if m: return self.setop(E, st, m.group(1), args, I)
        m = ITM.match(name)
        if m or name in ('std::operator!=', 'std::operator=='): return self.iterop(E, st, m.group(1) if m else name[-2:], args, I)
        if name not in E.p.functions and n not in libc.MODELS and n.startswith('pthread_') : return [(st, Z)]
        return None
    def x___errno_location(self, E, st, a, I):
        st.info.setdefault(ERRNO, Info('global', 'i32', K(4))); return [(st, Ptr(ERRNO))]
    def newfd(self, E, st, what, fail=True):
        fd = fresh(3, (1 << 31) - 1, what); s2 = st.copy() if fail else None
        st.g['fds'] = st.g.get('fds', ()) + ((fd, 'open'),)
        if s2 is None: return [(st, fd)]
        self.set_errno(s2, fresh(1, 4095, 'errno')); return [(st, fd), (s2, MONE)]
    def x_epoll_create1(self, E, st, a, I):
        if a and st.current(a[0]) == K(0o2000000): self.ob('descriptors kept from programs that are run')
        r = self.newfd(E, st, 'epoll', False); st.g['epolls'] = st.g.get('epolls', ()) + (r[0][1],); return r
    def x_eventfd(self, E, st, a, I):
        r = self.newfd(E, st, 'eventfd', False); st.g['efd'] = r[0][1]
        if not (st.current(a[1]).c & 0o4000): self.R(E, st, 'eventfd-blocks', ('C21', 'C19'), 'the descriptor that wakes the event loop is blocking')
        return r
    def x_close(self, E, st, a, I):
        fd = st.current(a[0]); w = self.fdstate(st, fd); self.ob('descriptors closed')
        if w is None: self.R(E, st, 'close-what', ('C16', 'C22'), 'something is closed that is not known to be an open descriptor')
        elif w == 'closed': self.R(E, st, 'close-twice', ('C16', 'C22'), 'a descriptor is closed twice')
        self.setfd(st, fd, 'closed'); return [(st, Z)]
    def x_epoll_ctl(self, E, st, a, I):
        ep, op, fd = (st.current(x) for x in a[:3]); ev = a[3]
        if op != K(DEL) and not (ep.__class__ is Lin and any(self.eqp(st, ep, e) for e in st.g.get('epolls', ()))): self.R(E, st, 'epoll', ('C22', 'C02'), 'the epoll descriptor used is not that of this loop')
        s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno'))
        if op.const and op.c == ADD:
            if ev.__class__ is not Ptr: self.R(E, st, 'epoll', ('C22',), 'a descriptor is watched for nothing'); return [(s2, MONE)]
            e = E.load(st, (ev.o, ev.f, self.ef2['events']['o'], 32), 'u32'); d = E.load(st, (ev.o, ev.f, self.evdata['o'], 64), 'p:v')
            if d.__class__ is Lin: d = E.load(st, (ev.o, ev.f, self.evdata['o'], 32), 'i32')
            st.g['reg'] = st.g.get('reg', ()) + ((fd, st.current(e) if e.__class__ is Lin else e, d),)
            if self.fdstate(st, fd) == 'closed': self.R(E, st, 'epoll', ('C22',), 'a closed descriptor is watched')
        return [(st, Z), (s2, MONE)]
    def x_read(self, E, st, a, I):
        fd = st.current(a[0])
        if 'efd' in st.g and self.eqp(st, fd, st.g['efd']): st.g['empty'] = 0; st.g['drained'] = 1
        libc.touch(E, st, a[1], a[2], 'write')
        s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno')); return [(st, K(8)), (s2, MONE)]
    def x_pthread_create(self, E, st, a, I):
        t = a[2]
        if a[3].__class__ is Ptr: self.shared = self.shared | {a[3].o}
        n = fresh(1, 1 << 40, 'tid')
        if a[0].__class__ is Ptr: E.store(st, (a[0].o, a[0].f, 0, 64), n, 'u64')
        st.g['threads'] = st.g.get('threads', ()) + (n,); self.threads = getattr(self, 'threads', set()) | {t.n if t.__class__ is Fnp else None}
        s2 = st.copy(); return [(st, Z)]
    def x_pthread_join(self, E, st, a, I):
        st.g['threads'] = tuple(t for t in st.g.get('threads', ()) if not self.eqp(st, t, a[0])); return [(st, Z)]
    def x_pthread_mutex_init(self, E, st, a, I): return [(st, Z)]
    # ---- the queue
    def qcell(self, st, g): return st.cells(('G', g))
    def walk(self, E, st):
        """the queue: its nodes, whether the end fits, or None"""
        if not self.roles: return None
        h = st.mem.get(('G', self.roles[0]), {}).get((0, 64)); t = st.mem.get(('G', self.roles[1]), {}).get((0, 64))
        out = []; n = 0; nx = self.qrec['next']
        while h.__class__ is Ptr and n < 9:
            if h.o in out: return out, False
            out.append(h.o); n += 1; v = cellof(st, h.o, (nx['o'], nx['w'])); h = st.current(v) if v.__class__ is Lin else v
        ok = h == Z and (t == Ptr(out[-1]) if out else t == Z)
        return out, ok
    def setqueue(self, st, k):
        q = self.qrec; ns = []
        for i in range(k):
            o = self.mobj(st, 'queued', q['rec'], q['size']); fd = fresh(5, (1 << 31) - 1, 'queued socket'); ns.append(o); st.cells(o)[(q['sock']['o'], q['sock']['w'])] = fd
            world.ogset(st, o, k='node', fd=fd); st.g['fds'] = st.g.get('fds', ()) + ((fd, 'queued'),)
            ty = K(self.ec['cache_connection' if i % 2 == 0 else 'mon_connection']); st.cells(o)[(q['type']['o'], q['type']['w'])] = ty; world.ogset(st, o, ty=ty)
        for i, o in enumerate(ns): st.cells(o)[(q['next']['o'], q['next']['w'])] = Ptr(ns[i + 1]) if i + 1 < k else Z
        st.cells(('G', self.roles[0]))[(0, 64)] = Ptr(ns[0]) if ns else Z
        st.cells(('G', self.roles[1]))[(0, 64)] = Ptr(ns[-1]) if ns else Z
        return ns
    def x_pthread_mutex_lock(self, E, st, a, I):
        self.ob('critical sections')
        if st.g.get('locked'): self.R(E, st, 'lock-twice', ('C19',), 'the lock is taken twice')
        st.g['locked'] = 1
        if not self.roles: return [(st, Z)]
        out = []
        for k in self.qlen if st.g.get('locks', 0) < self.nlock else (0,):
            s = st.copy(); self.setqueue(s, k); s.g['q0'] = tuple(self.walk(E, s)[0]); s.g['locks'] = min(self.nlock, s.g.get('locks', 0) + (1 if k else 0))
            if k == 0: s.g['empty'] = 1
            out.append((s, Z))
        return out
    def x_pthread_mutex_unlock(self, E, st, a, I):
        if not st.g.get('locked'): self.R(E, st, 'unlock', ('C19',), 'the lock is released without being held')
        st.g.pop('locked', None)
        if self.roles:
            q1, ok = self.walk(E, st); q0 = list(st.g.pop('q0', ()))
            if not ok: self.R(E, st, 'queue-shape', ('C19', 'C22'), 'the hand-over queue is left inconsistent'); st.dead = True
            k = next((k for k in range(len(q0) + 1) if q1[:len(q0) - k] == q0[k:]), None)
            if k is None: self.R(E, st, 'queue-lost', ('C19',), 'accepted sockets are lost from the hand-over queue')
            else:
                new = q1[len(q0) - k:]
                st.g['taken'] = st.g.get('taken', ()) + tuple(q0[:k]); st.g['queued'] = st.g.get('queued', ()) + tuple(new)
                for o in q0[:k]:
                    fd = world.og(st, o).get('fd'); 
                    if fd is not None: self.setfd(st, fd, 'open'); 
                for o in new:
                    v = cellof(st, o, (self.qrec['sock']['o'], self.qrec['sock']['w'])); v = st.current(v) if v.__class__ is Lin else None
                    if v is None or self.fdstate(st, v) != 'open': self.R(E, st, 'queue-what', ('C19', 'C16'), 'what is handed over is not a socket just accepted')
                    else: self.setfd(st, v, 'queued')
                    ty = cellof(st, o, (self.qrec['type']['o'], self.qrec['type']['w'])); want = st.g.get('wanttype')
                    if want is not None and (ty is None or st.current(ty) != K(want)): self.R(E, st, 'queue-type', ('C19', 'C27'), 'a socket is handed over as one of another kind')
                if new: st.g['woken'] = 0
            # what remains belongs to the other threads
            for o in self.walk(E, st)[0]: st.own.discard(o)
        return [(st, Z)]
    # ---- the set of connections
    def setop(self, E, st, m, a, I):
        key = lambda p: E.load(st, (p.o, p.f, 0, 64), 'p:v') if p.__class__ is Ptr else None
        if m in ('insert', 'emplace'):
            c = key(a[1])
            if c.__class__ is Ptr:
                world.ogset(st, c.o, k='conn', inset=1)
            return [(st, None)]
        if m in ('find', 'count', 'contains'):
            c = key(a[1]); ok = c.__class__ is Ptr and world.og(st, c.o).get('inset') == 1
            st.g['it'] = ('found', c.o) if ok else ('end',)
            return [(st, K(1 if ok else 0) if m != 'find' else None)]
        if m == 'erase':
            it = st.g.get('it'); x = a[1]; c = None
            if x.__class__ is Ptr and world.og(st, x.o).get('it') is None and I is not None and I[4] and I[4][1][0] == '&':
                c = key(x)
            if c.__class__ is Ptr and world.og(st, c.o).get('k') == 'conn': o = c.o
            elif it and it[0] == 'found': o = it[1]
            elif it and it[0] == 'at' and it[1] < len(st.g['set']): o = st.g['set'][it[1]]; st.g['it'] = ('at', it[1] + 1)
            else: self.R(E, st, 'erase', ('C22',), 'nothing known is taken off the list of connections'); return [(st, None)]
            world.ogset(st, o, inset=0); return [(st, None)]
        if m == 'begin': st.g['it'] = ('at', 0); return [(st, None)]
        if m in ('end', 'cend'): return [(st, None)]
        if m == 'clear':
            for o in st.g.get('set', ()): world.ogset(st, o, inset=0)
            return [(st, None)]
        if m in ('size',): return [(st, fresh(0, 1 << 20, 'size'))]
        if m in ('empty',): return [(st, fresh(0, 1, 'empty'))]
        if m == 'set': return [(st, None)]
        raise AnalysisBroken('operation on the set of connections: ' + m)
    def iterop(self, E, st, m, a, I):
        it = st.g.get('it', ('end',)); S = st.g.get('set', ())
        if m in ('!=', '=='):
            more = it[0] == 'found' or it[0] == 'at' and it[1] < len(S)
            return [(st, K(int(more == (m == '!='))))]
        if m == '++': st.g['it'] = ('at', it[1] + 1) if it[0] == 'at' else ('end',); return [(st, None)]
        if m == '*':
            o = it[1] if it[0] == 'found' else S[it[1]] if it[0] == 'at' and it[1] < len(S) else None
            if o is None: self.R(E, st, 'iterator', ('C22',), 'an iterator past the end is used'); st.dead = True; return []
            p = self.mobj(st, 'slot', 'p:v', 8); st.cells(p)[(0, 64)] = Ptr(o); st.own.discard(p); return [(st, Ptr(p))]
        return None
    # ---- serving
    def x_http_read_handle(self, E, st, a, I): return self.serve(E, st, a, 'read')
    def x_http_write_handle(self, E, st, a, I): return self.serve(E, st, a, 'write')
    def serve(self, E, st, a, what):
        o = self.live(E, st, a[0], 'http_%s_handle' % what)
        if o is None: return []
        self.ob('events served')
        if world.og(st, o).get('clean'): self.R(E, st, 'cleaned-used', ('C22',), 'a connection is served after its request was ended')
        n = what[0]; world.ogset(st, o, served=world.og(st, o).get('served', '') + n)
        out = []
        for s in self.anyafter(E, st, o):
            for r in self.actions:
                if r == self.ec['registered_write'] and self.C(E, s, o, 'epollout') != K(1): continue
                if r == self.ec['needs_more_read'] and self.C(E, s, o, 'epollin') != K(1): continue
                t = s.copy()
                if r == self.closing: world.ogset(t, o, mustclose=1)
                else: world.ogset(t, o, answering=int(self.C(E, t, o, 'epollout') == K(1)))
                out.append((t, K(r)))
        return out
    def x_http_cleanup(self, E, st, a, I):
        o = self.live(E, st, a[0], 'http_cleanup')
        if o is None: return []
        world.ogset(st, o, clean=1); return [(st, None)]
    def x_monitoring_check(self, E, st, a, I): st.g['moncheck'] = st.g.get('moncheck', 0) + 1; return [(st, None)]
    def x_db_lru_gc(self, E, st, a, I): st.g['lrugc'] = 1; return [(st, None)]
    def x_http_connection_handler(self, E, st, a, I): return self.opened(E, st, a)
    def opened(self, E, st, a):
        o = self.live(E, st, a[0], 'the connection handler')
        if o is None: return []
        d = world.og(st, o); fd = self.C(E, st, o, 'client_sock'); self.ob('connections opened')
        if d.get('opened'): self.R(E, st, 'opened-twice', ('C22', 'C02'), 'a connection is opened twice')
        node = next((n for n in reversed(st.g.get('taken', ())) if self.eqp(st, world.og(st, n).get('fd'), fd)), None)
        if node is None: self.R(E, st, 'opened-what', ('C22', 'C19'), 'a connection is opened for something else than the socket handed over')
        elif self.C(E, st, o, 'ltype') != world.og(st, node)['ty']: self.R(E, st, 'opened-type', ('C27', 'C19'), 'a connection is opened as one of another kind than it was accepted as')
        if d.get('inset') != 1: self.R(E, st, 'not-listed', ('C22',), 'a connection is opened that is not on the list of connections')
        r = next((r for r in st.g.get('reg', ()) if r[2] == Ptr(o)), None)
        if r is None or not self.eqp(st, r[0], fd): self.R(E, st, 'not-watched', ('C22', 'C02'), 'a connection is opened whose socket is not watched')
        elif not (r[1].__class__ is Lin and r[1].const and r[1].c & IN and not r[1].c & OUT): self.R(E, st, 'not-watched', ('C22', 'C02'), 'a new connection is not watched for input')
        for n, v in (('epollin', K(1)), ('epollout', Z), ('epollrdhup', Z), ('is_writing', Z), ('output_buffer', Z), ('output_buffer_free', Z)):
            if self.C(E, st, o, n) != v: self.R(E, st, 'opened-state', ('C02', 'C22'), 'a new connection starts with the wrong %s' % n)
        out = []
        world.ogset(st, o, opened=1, had=1)
        return [(s, None) for s in self.anyafter(E, st, o)[:1]]
    def wildcall(self, E, st, v, args, I): return self.opened(E, st, args)
    def x_accept4(self, E, st, a, I):
        r = self.newfd(E, st, 'accepted'); s = r[0][0]; s.g['accepted'] = s.g.get('accepted', ()) + (r[0][1],)
        fd = st.current(a[0])
        if self.fdstate(st, fd) != 'listener': self.R(E, st, 'accept-what', ('C19', 'C27'), 'a connection is accepted on something that is not a listener')
        fl = st.current(a[3]) if len(a) > 3 else Z
        self.sockflags(s, r[0][1], (1 if fl.c & 0o4000 else 0) | (2 if fl.c & 0o2000000 else 0) if fl.__class__ is Lin and fl.const else 3)
        return r
    def x_accept(self, E, st, a, I): return self.x_accept4(E, st, a[:3], I)
    # ---- the flags of accepted sockets: 1 non-blocking, 2 not inherited, 4 setting them failed
    def flagsof(self, st, fd): return next((b for f, b in st.g.get('sockflags', ()) if self.eqp(st, f, fd)), None)
    def sockflags(self, st, fd, b): st.g['sockflags'] = tuple((f, x) for f, x in st.g.get('sockflags', ()) if not self.eqp(st, f, fd)) + ((fd, b),)
    def x_fcntl(self, E, st, a, I):
        b = self.flagsof(st, a[0]); c = st.current(a[1]); s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno')); v = st.current(a[2]) if len(a) > 2 else Z
        if b is not None and c in (K(3), K(1)): self.sockflags(s2, a[0], b | 4); return [(st, K((2 | (0o4000 if b & 1 else 0)) if c == K(3) else b >> 1 & 1)), (s2, MONE)]
        if b is not None and c in (K(4), K(2)):
            self.sockflags(s2, a[0], b | 4)
            m, bit = (1, 0o4000) if c == K(4) else (2, 1)
            self.sockflags(st, a[0], (b & ~m) | (m if not (v.__class__ is Lin and v.const) or v.c & bit else 0)); return [(st, Z), (s2, MONE)]
        return [(st, Z if c in (K(4), K(2)) else fresh(0, (1 << 31) - 1, 'fcntl')), (s2, MONE)]
    x_fcntl64 = x_fcntl
    def x_ioctl(self, E, st, a, I):
        b = self.flagsof(st, a[0]); c = st.current(a[1]); s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno'))
        if b is not None and c in (K(0x5421), K(0x5451)): self.sockflags(s2, a[0], b | 4); self.sockflags(st, a[0], b | (1 if c == K(0x5421) else 2))
        return [(st, Z), (s2, MONE)]
    def x_malloc(self, E, st, a, I):
        if not self.nomem: return None
        s2 = st.copy(); self.set_errno(s2, K(12)); return libc.m_malloc(E, st, a, I) + [(s2, Z)]
    nomem = False
    def x_write(self, E, st, a, I):
        fd = st.current(a[0]); s2 = st.copy(); self.set_errno(s2, fresh(1, 4095, 'errno'))
        if 'efd' in st.g and self.eqp(st, fd, st.g['efd']):
            for s in (st, s2): s.g['woken'] = 1
        return [(st, st.current(a[2])), (s2, MONE)]
    # ---- waiting for events
    def x_epoll_wait(self, E, st, a, I):
        if st.g.get('locked'): self.R(E, st, 'lock-wait', ('C19',), 'events are waited for with the lock held')
        if st.g.get('delivered'): self.round_end(E, st); return []
        out = []
        if not st.g.get('waited'):
            s = st.copy(); s.g['waited'] = 1; self.set_errno(s, K(EINTR)); out.append((s, MONE))
            s = st.copy(); s.g['waited'] = 1; out.append((s, Z))
        st.g['delivered'] = 1; st.g['waited'] = 1
        if a[1].__class__ is not Ptr: raise AnalysisBroken('where events are stored')
        evs = self.scenario(E, st)
        for i, (m, d) in enumerate(evs):
            base = a[1].f.c * 8 + i * self.evsize * 8; c = st.cells(a[1].o)
            for k in [k for k in c if k[0] == 's' or base <= k[0] < base + self.evsize * 8]: del c[k]
            c[(base + self.ef2['events']['o'], 32)] = K(m)
            if d.__class__ is Ptr: c[(base + self.evdata['o'], 64)] = d
            else: c[(base + self.evdata['o'], 32)] = d
        st.g['start'] = 1
        out.append((st, K(len(evs))))
        return out
    x_epoll_pwait = x_epoll_wait
    def round_end(self, E, st): self.finish(E, st)

class EvSuite:
    def __init__(self, P, budget=300):
        self.P = P; self.W = Ev(P); self.E = Engine(P, self.W, budget); self.E.models = dict(libc.MODELS); self.E.unroll = 3000; self.W.suite = self; self.stats = []
    def key(self, name):
        ks = [k for k in self.P.functions if k == name or k.split('/')[0] == name]
        if len(ks) != 1: raise AnalysisBroken('anchor function %s not found' % name)
        return ks[0]
    def go(self, st, key, args, entry):
        W, E = self.W, self.E; W.entry = entry; W.shared = set(); E.stack = []; E.F = None; t = time.time(); E.t0 = time.time()
        f = self.P.functions[key]; self.where = '%s:%s (%s)' % (f['file'], f.get('l', 0), key.split('/')[0].split('::')[-1])
        r = E.run(st, key, args); self.stats.append((key.split('::')[-1], len(r), time.time() - t)); return r
    def leak(self, st, allowed, what):
        W, E = self.W, self.E
    # ---- the accepting threads
    def thread(self):
        import flow
        W, E, P = self.W, self.E, self.P
        ts = {t for t in flow.Flow(P).threads() if t in P.functions}
        ts = {t for t in ts if any(c.startswith('accept') for c in flow.Flow(P).externs_of(t))} if hasattr(flow.Flow, 'externs_of') else ts
        if len(ts) != 1: raise AnalysisBroken('the accepting thread')
        return ts.pop()
    later = False   # whether the serving thread makes its sockets non-blocking itself
    def accept(self):
        import flow; key = self.key('connection_event_loop'); fl = flow.Flow(self.P); c = fl.closure({key})
        self.later = any(I[2] in ('fcntl', 'fcntl64', 'ioctl') for kk, b, n, I in fl.externs(c))
        W, E, P = self.W, self.E, self.P; key = self.thread(); ec = W.ec; W.nomem = True
        lf = {n: P.field('listener_entry', n) for n in ('fd', 'type')}; cf = {n: P.field('listener_collection', n) for n in ('listeners', 'listener_count')}
        g = next((k for k, v in P.globals.items() if v['t'] == 'r:listener_collection'), None)
        if g is None: raise AnalysisBroken('anchor: the listeners')
        af = {n: P.field('connection_thread_arg', n) for n in ('type', 'eventfd')}
        lsize = P.sizeof('r:listener_entry')
        for ty, ct in (('cache_listener', 'cache_connection'), ('mon_listener', 'mon_connection')):
            for nev, masks in ((1, (IN,)), (2, (IN, IN)), (1, (ERR,))):
              for roles in ([None] if W.roles is None else []) + ['q']:
                if roles == 'q' and W.roles is None: continue
                st = State(); st.frames = []
                A = W.mobj(st, 'listeners', 'listener_entry', 3 * lsize); fds = []
                for i, t in enumerate(('cache_listener', 'mon_listener', ty)):
                    fd = fresh(3, (1 << 31) - 1, 'listener'); fds.append((fd, t)); st.cells(A)[(i * lsize * 8 + lf['fd']['o'], 32)] = fd; st.cells(A)[(i * lsize * 8 + lf['type']['o'], 32)] = K(ec[t])
                    st.g['fds'] = st.g.get('fds', ()) + ((fd, 'listener'),)
                st.cells(('G', g))[(cf['listeners']['o'], 64)] = Ptr(A); st.cells(('G', g))[(cf['listener_count']['o'], 32)] = K(3)
                a = W.mobj(st, 'thread argument', 'connection_thread_arg', P.sizeof('r:connection_thread_arg')); efd = fresh(3, (1 << 31) - 1, 'eventfd')
                st.cells(a)[(af['type']['o'], af['type']['w'])] = K(ec[ty]); st.cells(a)[(af['eventfd']['o'], 32)] = efd; st.g['efd'] = efd
                st.g['fds'] = st.g['fds'] + ((efd, 'shared'),); st.g['wanttype'] = ec[ct]; st.g['woken'] = 1
                mine = [f for f, t in fds if t == ty]; W.nlock = 0 if False else 9; W.qlen = (0, 1, 2)
                if W.roles is None:
                    # from an empty queue: which global is the head, which the tail
                    for q in W.qrec['globals']: st.cells(('G', q))[(0, 64)] = Z
                W.scenario = lambda E, s: [(m, self.regdata(s, mine[i % len(mine)])) for i, m in enumerate(masks)]
                W.finish = lambda E, s: self.accept_end(E, s, mine, fds)
                for s, v in self.go(st, key, [Ptr(a)], 'accepting thread (%s), %d events %s' % (ty, nev, '+'.join(hex(m) for m in masks))):
                    W.ob('ends of accepting threads')
                    for e in s.g.get('epolls', ()):
                        if W.fdstate(s, e) != 'closed': W.report(E, s, 'epoll-kept', ('C16',), 'the epoll descriptor of a thread is not closed', where=self.where)
                    if s.g.get('locked'): W.report(E, s, 'lock-kept', ('C19',), 'a thread ends with the lock held', where=self.where)
                    self.accept_end(E, s, mine, fds)
    def regdata(self, st, fd):
        for f, e, d in st.g.get('reg', ()):
            if self.W.eqp(st, f, fd):
                if not (e.__class__ is Lin and e.const and e.c & IN): self.W.report(self.E, st, 'listener-events', ('C27', 'C19'), 'a listener is not watched for new connections')
                return d
        self.W.report(self.E, st, 'listener-unwatched', ('C27', 'C19'), 'a listener is not watched by the thread that accepts its connections'); st.dead = True
        return fd
    def accept_end(self, E, st, mine, fds):
        W = self.W; R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        for f, e, d in st.g.get('reg', ()):
            if not any(W.eqp(st, f, x) for x in mine): R('listener-other', ('C27', 'C19'), 'a listener is watched by the thread of another kind')
        if len({f for f, e, d in st.g.get('reg', ())}) < len(mine) and st.g.get('delivered'): R('listener-unwatched', ('C27', 'C19'), 'a listener is not watched')
        if W.roles is None:
            # the first node that was queued
            v = {q: st.mem.get(('G', q), {}).get((0, 64)) for q in W.qrec['globals']}
            ps = {q: p.o for q, p in v.items() if p.__class__ is Ptr}
            if len(ps) == 2 and len(set(ps.values())) == 2:
                nx = W.qrec['next']
                for q, o in ps.items():
                    n = cellof(st, o, (nx['o'], nx['w']))
                    if n.__class__ is Ptr and n.o in ps.values(): self.seen_roles = (q, next(r for r in ps if r != q))
            return
        for fd in st.g.get('accepted', ()):
            W.ob('accepted sockets followed')
            w = W.fdstate(st, fd)
            b = self.W.flagsof(st, fd)
            if w not in ('open', 'closed') and b is not None and not b & 4 and not self.later:
                if not b & 1: R('accepted-blocking', ('C21',), 'a socket is handed over that is not non-blocking: one client can hold up all')
                if not b & 2: R('accepted-inherited', ('C16',), 'a socket is handed over that programs run by the server would inherit')
            if w == 'open': R('accepted-lost', ('C19', 'C16'), 'an accepted socket is neither handed over nor closed')
        if st.g.get('queued') and not st.g.get('woken'): R('not-woken', ('C19', 'C02'), 'a socket is handed over but the event loop is not woken')
        for o in st.info:
            if o[0] == 'H' and st.info[o].status != 'freed' and o not in st.g.get('queued', ()): R('queue-leak', ('C26',), 'memory is allocated for a socket that is not handed over and never freed'); break
    # ---- the event loop
    MASKS = (IN, OUT, IN | RDHUP, OUT | RDHUP, IN | RDHUP | HUP, IN | RDHUP | ERR | HUP, OUT | HUP, OUT | ERR | HUP)   # what the kernel reports: a hang-up or an error comes with the readiness that was asked for
    def loop(self, part=None):
        W, E, P = self.W, self.E, self.P; W.nomem = False; key = self.key('connection_event_loop'); ec = W.ec
        W.nlock = 2
        S = []
        for lt in ('cache_connection', 'mon_connection'):
            for m in self.MASKS:
                for ep in ((1, 0), (0, 1)):
                    if m & OUT and not ep[1] or m & IN and not ep[0]: 
                        if not (m & IN and m & OUT): continue
                    S.append([(lt, m, ep)])
        S += [[('cache_connection', IN | HUP | RDHUP, (1, 0)), ('mon_connection', IN, (1, 0))], [('cache_connection', IN, (1, 0)), ('cache_connection', OUT, (0, 1))], ['accept'], ['mon'], ['accept', ('cache_connection', IN | RDHUP, (1, 0))], [('mon_connection', OUT | HUP, (0, 1)), 'mon'], [('cache_connection', IN | HUP | RDHUP, (1, 0)), 'accept']]
        for sc in S if part is None else S[part[0]::part[1]]:
            st = State(); st.frames = []
            mfd = fresh(3, (1 << 31) - 1, 'monitoring event'); st.g['fds'] = ((mfd, 'shared'),)
            W.scenario = lambda E, s: self.deliver(E, s, sc, mfd)
            W.finish = lambda E, s: self.loop_end(E, s, sc)
            W.nlock = 2 if len(sc) == 1 else 1; h = Fnp('http_connection_handler')
            txt = ', '.join(x if x.__class__ is str else '%s %s' % (x[0], '|'.join(n for b, n in ((IN, 'IN'), (OUT, 'OUT'), (ERR, 'ERR'), (HUP, 'HUP'), (RDHUP, 'RDHUP')) if x[1] & b)) for x in sc)
            for s, v in self.go(st, key, [h, mfd], 'events: ' + txt):
                W.ob('ends of the event loop')
                R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=self.where)
                if s.g.get('threads'): R('not-joined', ('C19',), 'the event loop returns while a thread it started may still run')
                for e in s.g.get('epolls', ()) + (s.g['efd'],):
                    if W.fdstate(s, e) != 'closed': R('fd-kept', ('C16',), 'a descriptor of the event loop is not closed')
                if s.g.get('delivered'): self.loop_end(E, s, sc, True)
    def deliver(self, E, st, sc, mfd):
        W = self.W; out = []; st.g['conns'] = ()
        # the loop is running: the threads it has started are ready
        for x in sc:
            if x.__class__ is str:
                fd = st.g['efd'] if x == 'accept' else mfd
                d = next((d for f, e, d in st.g.get('reg', ()) if W.eqp(st, f, fd)), None)
                if d is None: W.report(E, st, 'wake', ('C19', 'C23'), 'the event loop does not watch the descriptor that wakes it (%s)' % x, where=self.where); st.dead = True; return []
                out.append((IN, d))
            else:
                o = W.conn(E, st, W.ec[x[0]], x[2], True); st.g['conns'] = st.g['conns'] + ((o, x[1], x[2]),); out.append((x[1], Ptr(o)))
        return out
    def loop_end(self, E, st, sc, last=False):
        W = self.W; R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        W.ob('rounds of events')
        if st.g.get('locked'): R('lock-kept', ('C19',), 'the lock is still held when the next events are waited for')
        for o, m, ep in st.g.get('conns', ()):
            W.ob('events on a connection followed'); d = world.og(st, o); gone = o not in st.info or st.info[o].status == 'freed'; fd = d.get('fd'); w = W.fdstate(st, fd) if fd is not None else None
            must = d.get('mustclose'); brk = m & (ERR | HUP)
            sv = d.get('served', '')
            hup = m & (RDHUP | ERR | HUP)
            if must and not gone: R('kept', ('C22', 'C16'), 'a connection that has ended is kept')
            if gone and not must and not hup: R('dropped', ('C22', 'C02'), 'a connection is closed although neither the client nor its request ended it')
            if not must and not (gone and brk):
                if m & IN and sv.count('r') != 1 or m & OUT and sv.count('w') != 1: R('not-served', ('C02', 'C22'), 'an event of a connection is not dealt with')
            if not m & IN and 'r' in sv or not m & OUT and 'w' in sv: R('served-wrong', ('C02', 'C21'), 'a connection is read or written although it is not ready')
            if gone and not must and not brk and d.get('answering'): R('answer-dropped', ('C02', 'C22'), 'a connection is closed before the answer to its request is sent, although its client still reads')
            if gone:
                if w != 'closed': R('fd-kept', ('C22', 'C16'), 'a connection is freed but its socket is not closed')
                if d.get('inset') == 1: R('still-listed', ('C22',), 'a connection is freed but stays on the list of connections')
            else:
                if w == 'closed': R('closed-kept', ('C22',), 'the socket of a connection is closed but the connection is kept')
                if d.get('inset') != 1: R('unlisted', ('C22',), 'a connection is taken off the list of connections but kept')
                if d.get('clean') == 1 and not gone: R('cleaned-kept', ('C22', 'C02'), 'the request of a connection is ended from outside but the connection is kept')
        for n in st.g.get('taken', ()):
            W.ob('handed-over sockets followed'); d = world.og(st, n); w = W.fdstate(st, d['fd']) if 'fd' in d else None
            if n in st.info and st.info[n].status != 'freed': R('node-leak', ('C26', 'C19'), 'the record of a socket handed over is not freed')
            c = next((o for o, g in st.og.items() if dict(g).get('k') == 'conn' and o in st.info and st.info[o].status != 'freed' and 'fd' in d and W.eqp(st, W.C(E, st, o, 'client_sock'), d['fd'])), None)
            if c is None and w != 'closed': R('taken-lost', ('C19', 'C16'), 'a socket that was handed over is neither served nor closed')
            if c is not None and w == 'closed': R('taken-closed', ('C19', 'C22'), 'a socket that was handed over is closed but kept as a connection')
            if c is not None and not dict(st.og[c]).get('opened'): R('not-opened', ('C02', 'C22'), 'a new connection is never handed to its handler')
            if c is not None and dict(st.og[c]).get('inset') != 1: R('unlisted', ('C22',), 'a new connection is not on the list of connections')
        # memory: everything allocated has an owner
        own = {st.mem.get(o, {}).get((W.cf['output_buffer_free']['o'], 64)) for o, g in st.og.items() if dict(g).get('k') == 'conn' and o in st.info and st.info[o].status != 'freed'}
        own = {p.o for p in own if p.__class__ is Ptr}
        for o in list(st.info):
            i = st.info[o]
            if o[0] in 'HM' and i.status != 'freed' and i.kind == 'heap':
                if i.site == 'output' and o not in own: R('output-leak', ('C22', 'C26'), 'the output of a connection is not freed when it is closed')
                if o[0] == 'H' and dict(st.og.get(o, ())).get('k') != 'conn': R('leak', ('C26', 'C22'), 'memory allocated for a connection is neither kept nor freed')
        if 'accept' in sc and not last:
            if not st.g.get('drained'): R('not-drained', ('C19', 'C21'), 'the descriptor that wakes the event loop is not read')
            if not st.g.get('empty'): R('queue-left', ('C19', 'C02'), 'sockets handed over are left in the queue until the next connection arrives')
        if 'mon' in sc and not last:
            if st.g.get('moncheck', 0) != 1: R('moncheck', ('C23',), 'the monitoring subscribers are not served once when the timer asks for it')
        elif 'mon' not in sc and st.g.get('moncheck'): R('moncheck', ('C23',), 'the monitoring subscribers are served although the timer did not ask for it')
    # ---- the final clean-up
    def cleanup(self):
        W, E, P = self.W, self.E, self.P; W.nomem = False; key = self.key('connection_cleanup')
        lf = {n: P.field('listener_entry', n) for n in ('fd', 'type')}; cf = {n: P.field('listener_collection', n) for n in ('listeners', 'listener_count')}
        g = next((k for k, v in P.globals.items() if v['t'] == 'r:listener_collection'), None); lsize = P.sizeof('r:listener_entry')
        for nc in (0, 1, 2):
            for nq in (0, 1, 2):
                st = State(); st.frames = []; st.g['final'] = 1; L = []
                ep = fresh(3, 1 << 20, 'epoll'); st.g['epolls'] = (ep,)
                if nc == 0 and nq == 1: st.cells(('G', g))[(cf['listeners']['o'], 64)] = Z; st.cells(('G', g))[(cf['listener_count']['o'], 32)] = Z
                else:
                    A = ('H', next(NOBJ), len(SYM)); st.info[A] = Info('heap', 'listener_entry', K(2 * lsize), 'live', 'lazy', 'listeners'); st.mem[A] = {}; st.own.add(A)
                    for i in (0, 1):
                        fd = fresh(3, (1 << 31) - 1, 'listener'); st.cells(A)[(i * lsize * 8 + lf['fd']['o'], 32)] = fd; st.g['fds'] = st.g.get('fds', ()) + ((fd, 'listener'),); L.append(fd)
                    st.cells(('G', g))[(cf['listeners']['o'], 64)] = Ptr(A); st.cells(('G', g))[(cf['listener_count']['o'], 32)] = K(2)
                cs = [W.conn(E, st, W.ec['cache_connection' if i else 'mon_connection'], (1, 0), i) for i in range(nc)]
                for q in W.qrec['globals']: st.cells(('G', q))
                ns = W.setqueue(st, nq); st.g['set'] = tuple(cs)
                for s, v in self.go(st, key, [], 'clean-up with %d connections, %d sockets not served yet' % (nc, nq)):
                    R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=self.where)
                    W.ob('clean-ups')
                    for o in cs:
                        if o in s.info and s.info[o].status != 'freed': R('cleanup-conn', ('C22', 'C26'), 'a connection is not freed when the server ends')
                        if dict(s.og.get(o, ())).get('clean') != 1: R('not-released', ('C22', 'C06'), 'what the request of a connection holds is not released when the server ends')
                        b = dict(s.og.get(o, ())).get('buf')
                        if b is not None and b in s.info and s.info[b].status != 'freed': R('output-leak', ('C22', 'C26'), 'the output of a connection is not freed when the server ends')
                    for o in ns:
                        if o in s.info and s.info[o].status != 'freed': R('cleanup-node', ('C26', 'C22'), 'the record of a socket not served yet is not freed when the server ends')
                    for fd, w in s.g.get('fds', ()):
                        if w != 'closed': R('cleanup-fd', ('C22', 'C16'), 'a descriptor (%s) is not closed when the server ends' % w)
                    for o in list(s.info):
                        if o[0] == 'H' and s.info[o].status != 'freed': R('cleanup-leak', ('C26',), 'memory is not freed when the server ends'); break

def run(P, parts=('accept', 'loop', 'cleanup')):
    S = EvSuite(P)
    if S.W.qrec is None: raise AnalysisBroken('the hand-over queue was not found')
    S.seen_roles = None
    S.accept()
    S.W.findings.clear()
    if S.seen_roles is None:
        # not determined by what the thread does: the assignment that fits it best
        g = S.W.qrec['globals']; c = []
        if len(g) != 2: raise AnalysisBroken('the two ends of the hand-over queue are not determined')
        for r in (tuple(g), tuple(g[::-1])):
            S.W.roles = r; S.accept(); c.append((len(S.W.findings), r)); S.W.findings.clear()
        S.seen_roles = min(c)[1]
    S.W.roles = S.seen_roles
    S.stats.clear()
    for p in parts:
        if p.__class__ is tuple: S.loop(p)
        else: getattr(S, p)()
    return S
if __name__ == '__main__':
    import prog, sys
    t = time.time(); S = run(prog.Program('release'), tuple(sys.argv[1:]) or ('accept', 'loop', 'cleanup')); print(S.stats[:4], len(S.stats), time.time() - t)
    seen = set()
    for f in S.W.findings.values():
        if (f.rule, f.where, f.msg) in seen: continue
        seen.add((f.rule, f.where, f.msg)); print(f.props, f.text()[:700])
    print(S.W.obl); print(getattr(S.E, 'unknown', {}))
