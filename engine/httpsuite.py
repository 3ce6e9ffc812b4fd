"""Analysis of the connection handlers.  A connection is described by a small abstract description (which
handler comes next, what it holds, what was sent so far); every handler is interpreted from every
description that can arise, in every state other connections may have left the database in meanwhile, and
what it leaves behind is described again, until nothing new appears."""
import itertools, time, sys, re, os, functools
from prog import REPO
from dbsuite import *
import dbsuite, libc
from collections import namedtuple

BUF = 16384
# kind of target: None, 'entry', 'table'; held: references the connection holds; emode/tmode: states possible
Desc = namedtuple('Desc', 'handler ltype method state writing epin epout out sent ekind emode eheld theld fd pos hdr num')
LOOKUPS = ('db_table_get_read', 'db_table_get_write', 'db_entry_get_read', 'db_entry_get_write', 'db_entry_get_delete')
C = ('L', 0, '$conn')

def cstring(n):
    """text of a string constant in the syntax tree"""
    if not isinstance(n, dict): return None
    if n.get('k') == 'str': return n.get('s')
    return None

INTMAX = (1 << 31) - 1
def unwrap(st, v):
    """the value modulo the 16 bits of a buffer position"""
    for _ in range(4):
        r = K(v.c); ch = False
        for t, k in v.t:
            d = DEFS.get(t)
            if d and d[0] == 'wrap' and d[1][0] == 16: r = r.add(st.current(d[1][2]).mul(k)); ch = True
            else: r = r.add(Lin(0, ((t, k),)))
        if not ch: break
        v = st.current(r)
    return v
RING = ('L', 0, '$ring')
class Http(DB):
    lazy_lru = True; reader = 'off'; hardobjs = (C,); settles = True
    # True: what is in the input buffer and how much of it is left open (any bytes, any positions);
    # False: the positions are followed, and the database is left open instead
    loose = True
    def __init__(self, P):
        super().__init__(P); F = P.field
        self.cf = {n: F('scache_connection', n) for n in ('output_buffer', 'output_buffer_free', 'handler', 'output_length', 'client_sock', 'input', 'state', 'method', 'is_writing', 'epollin', 'epollout', 'ltype')}
        self.rf = {n: F('read_buffer', n) for n in ('buffer', 'read_position', 'write_position')}
        base = self.cf['input']['o']
        self.rpos = (base + self.rf['read_position']['o'], 16); self.wpos = (base + self.rf['write_position']['o'], 16)
        self.buf0 = base + self.rf['buffer']['o']
        d = P.fld['scache_connection']; self.utarget = None
        self.csize = P.sizeof('r:scache_connection')
        self.ttf = {n: F('table_target', n) for n in ('table', 'start', 'limit')}
        self.tgt = self.find_target(P)
        self.cut = []; self.mode = None; self.filecache = {}
        self.dbfile = P.functions[next(k for k in P.functions if k.split('/')[0] == 'db_entry_get_read')]['file']
        self.ec = P.econst
        for n in ('close_connection', 'cache_connection', 'mon_connection'):
            if n not in self.ec: raise AnalysisBroken('anchor: constant ' + n)
        # message texts: rows of the arrays of constant text
        self.rows = {}
        for k, g in P.globals.items():
            if g['t'].startswith('a:') and g['t'].endswith(':i8') and g.get('const') and 'init' in g:
                t = g['t'].split(':')
                if len(t) == 5 and t[2] == 'a': self.rows[k] = (int(t[3]), [cstring(x) for x in g['init'].get('as', [])])
        self.lens = next((('G', k) for k, g in P.globals.items() if k.endswith('templates_length')), None)
    def find_target(self, P):
        """offset of the member of a connection that tells what a request is about"""
        def walk(r, base, depth):
            for n, f in P.fld.get(r, {}).items():
                if f['t'] == 'r:cache_target': return base + f['o']
                if f['t'][:2] == 'r:' and depth < 6 and f['t'] != 'r:read_buffer':
                    x = walk(f['t'][2:], base + f['o'], depth + 1)
                    if x is not None: return x
            return None
        x = walk('scache_connection', 0, 0)
        if x is None: raise AnalysisBroken('anchor: target of a connection')
        return x
    def consttext(self, st, p):
        if p.__class__ is Ptr and p.o[0] == 'str' and p.f.const: return p.o[1][p.f.c:]
        if p.__class__ is Ptr and p.o[0] == 'G' and p.o[1] in self.rows and p.f.const:
            w, rows = self.rows[p.o[1]]; i, r = divmod(p.f.c, w)
            if i < len(rows) and rows[i] is not None: return rows[i][r:]
        return None
    def copytext(self, E, st, d, s, n):
        """the pieces of text an allocated buffer is made of: ((place, what, length), ...)"""
        if d.__class__ is not Ptr or d.o[0] != 'H' or st.info[d.o].status == 'freed': return None
        old = dict(st.og.get(d.o, ())).get('parts') or ()
        x = None
        t = self.consttext(st, s)
        if t is not None and n.__class__ is Lin and n.const and n.c <= len(t): x = ('const', t[:n.c])
        elif s.__class__ is Ptr:
            g = dict(st.og.get(s.o, ())); c = libc.contents(E, st, s); l = g.get(('len', s.f))
            if c is not None and c[0] == 'fmt' and l is not None and n.__class__ is Lin and st.current(l) == st.current(n): x = ('fmt', c[1], c[2])
            elif g.get('k') == 'key':
                o = next((o for o, h in st.og.items() if dict(h).get('k') == 'E' and o in st.info and st.info[o].status != 'freed' and self.peek(st, o, self.ef, 'key') == s), None)
                kl = self.peek(st, o, self.ef, 'key_length') if o is not None else None
                x = ('key', kl is not None and self.eqp(st, st.current(kl), st.current(n)))
            elif s.o[0] == 'L':
                # text printed piece after piece
                at = st.current(s.f); ls = [(st.current(k[1]), st.current(v)) for k, v in st.og.get(s.o, ()) if k.__class__ is tuple and k[0] == 'len']
                while ls:
                    nx = next(((f, l) for f, l in ls if self.eqp(st, f, at)), None)
                    if nx is None: break
                    ls.remove(nx); at = at.add(nx[1])
                x = ('text', s.f == Z and n.__class__ is Lin and self.eqp(st, at, st.current(n)))
        return old + ((d.f, x, n),)
    def cput(self, st, n, v): st.cells(C)[(self.cf[n]['o'], self.cf[n]['w'])] = v
    def cget(self, E, st, n):
        f = self.cf[n]; v = E.load(st, (C, Z, f['o'], f['w']), f['t']); return st.current(v) if v.__class__ is Lin else v
    def tput(self, st, n, v, table=False):
        f = (self.ttf if table else self.tfd)[n]; st.cells(C)[(self.tgt + f['o'], f['w'])] = v
    def tpeek(self, st, n, table=False):
        f = (self.ttf if table else self.tfd)[n]; v = st.mem[C].get((self.tgt + f['o'], f['w'])); return st.current(v) if v.__class__ is Lin else v
    def avail(self, st):
        """bytes received that are not consumed"""
        if self.loose: return fresh(0, BUF, 'received')
        c = st.mem[C]; return st.current(c[self.wpos]).sub(st.current(c[self.rpos]))

    # ---- hooks
    def store(self, E, st, o, off, w, v, t):
        if o == C:
            if st.g.get('poison'): self.poisoned(E, st)
            if (off, w) in (self.rpos, self.wpos):
                if self.loose:
                    if (off, w) == self.rpos: self.moved(st, v)
                    return fresh(0, 65535, 'position')
                v = st.current(v)
                if v.one() and sid(v) in DEFS and DEFS[sid(v)][0] == 'wrap' and DEFS[sid(v)][1][0] == 16: v = st.current(DEFS[sid(v)][1][2])
                c = st.mem[C]; r = v if (off, w) == self.rpos else st.current(c[self.rpos]); x = v if (off, w) == self.wpos else st.current(c[self.wpos])
                if v != Z or not self.mode == 'read':
                    l = x.sub(r); self.ob('moves of the buffer positions')
                    if not st.prove(l.mul(-1)): self.report(E, st, 'read-past-end', ('C17', 'C02'), 'the read position may move past the end of what was received')
                    elif not st.prove(l.plus(-BUF)): self.report(E, st, 'buffer-overrun', ('C17',), 'more is taken as received than the input buffer holds')
                return v
            if off == self.cf['handler']['o'] and w == 64: pass
            return None
        return super().store(E, st, o, off, w, v, t)
    def load(self, E, st, o, off, w, t):
        if o == C:
            if st.g.get('poison'): self.poisoned(E, st)
            if self.loose:
                if (off, w) in (self.rpos, self.wpos):
                    if (off, w) == self.rpos and 'body' in st.g:
                        c = st.cells(C)
                        if (off, w) not in c: c[(off, w)] = fresh(0, 65535, 'position')
                        st.g['rp'] = st.current(c[(off, w)])
                    return
                if w == 8 and (off.__class__ is tuple or self.buf0 <= off < self.buf0 + BUF * 8): st.g['looked'] = 1; return
            elif w == 8 and off.__class__ is tuple and off[1] == 0:
                f = off[0]; self.bufcheck(E, st, f)
        elif o == RING and w == 8 and self.loose: st.g['looked'] = 1; return
        elif o == RING and w == 8: self.bufcheck(E, st, off[0] if off.__class__ is tuple else K(off // 8), 0)
        return super().load(E, st, o, off, w, t)
    def assigned(self, E, st, v):
        # the start of the input buffer is kept apart from places in it, so that they are generalised separately
        if self.loose and v.__class__ is Ptr and (v.o == RING or v.o == C and (not v.f.const or self.buf0 <= v.f.c * 8 <= self.buf0 + BUF * 8)): return Ptr(RING, fresh(0, BUF, 'place'))
        if v.__class__ is Ptr and v.o == C and v.f.const and v.f.c * 8 == self.buf0: return Ptr(RING)
        return v
    def alias(self, p): return Ptr(C, p.f.plus(self.buf0 // 8)) if p.o == RING else p
    def bufcheck(self, E, st, f, b=None):
        b = self.buf0 // 8 if b is None else b; self.ob('reads of the input buffer')
        if not st.prove(K(b).sub(f)) or not st.prove(f.plus(-(b + BUF - 1))):
            self.report(E, st, 'buffer-bounds', ('C17',), 'a byte outside of the input buffer may be looked at')
        st.g['looked'] = 1
    def poisoned(self, E, st):
        self.report(E, st, 'after-next', ('C02', 'C22'), 'the connection is used after its next request was dealt with')
        st.dead = True; st.g['poison'] = None
    def materialise(self, E, st, o, off, w, t):
        if w == 64 and off.__class__ is int and off in (self.ef['lru_prev']['o'], self.ef['lru_next']['o']) and dict(st.og.get(o, ())).get('k') in ('E', 'Ls'): return self.anyentry(st)
        if o == self.lens and off.__class__ is int:
            for k, (n, rows) in self.rows.items():
                i = off // 32
                if i < len(rows) and rows[i] is not None: return K(len(rows[i]))
        return super().materialise(E, st, o, off, w, t)
    def access(self, E, st, p, n, what):
        super().access(E, st, p, n, what)
        if st.dead or p.__class__ is not Ptr: return
        i = st.info.get(p.o)
        if p.o == C: return
        if p.o[0] in ('H', 'L') and i is not None and i.size is not None and n.__class__ is Lin:
            self.ob('sizes of copies')
            if what == 'write-str': return
            if not st.prove(st.current(p.f.add(n)).sub(i.size)): self.report(E, st, 'overflow', ('C17',), '%s of %s may run past the end of %s' % ('writing' if 'write' in what else 'reading', self.show(st.current(n)), i.site or oname(p.o)))
            elif st.lo(st.current(n)) < 0 and not st.prove(st.current(n).mul(-1)): self.report(E, st, 'negative-length', ('C17',), 'a copy may have a negative length')
    def readinto(self, E, st, p, n): return p.o == C
    def scanner(self, F): return F.ret == 'v' and len(F.heads) > 0 and self.mode not in ('read', 'write')
    def outer(self, E, F):
        """is F an operation of another module that is about to return to a handler?"""
        if self.mode != 'handler' or len(E.stack) < 2 or '::' in F.key: return False
        k = self.filecache.get(F.key)
        if k is None: k = self.filecache[F.key] = self.P.functions[F.key]['file']
        if k != self.dbfile: return False
        c = E.stack[-2].key; x = self.filecache.get(c)
        if x is None: x = self.filecache[c] = self.P.functions[c]['file']
        return x != k
    def merge_returns(self, E, F): return self.scanner(F) or self.outer(E, F) or super().merge_returns(E, F)
    def normal(self, E, st):
        """an operation on the database is over: what it did is checked, and forgotten where nothing depends on it"""
        W = E.where(); R = lambda rule, props, msg: self.report(E, st, rule, props, msg, where=W)
        self.end_blocks(E, st, R)
        if st.dead: return
        ents = [(o, dict(g)) for o, g in st.og.items() if dict(g).get('k') == 'E' and o in st.info]
        for o, d in ents:
            if st.info[o].status == 'freed':
                if d['mode'] != 'new': ogset(st, o, b0=MONE)
                continue
            b, l = self.peek(st, o, self.ef, 'block'), self.peek(st, o, self.ef, 'data_length')
            if b is not None and l is not None: ogset(st, o, b0=st.current(b), dl0=st.current(l))
        ev = []
        fd = self.tpeek(st, 'fd')
        for x in st.g.get('ev') or ():
            if x[0] == 'unlink':
                own = [(o, dict(g)) for o, g in st.og.items() if dict(g).get('k') == 'E' and dict(g).get('path') is not None and self.cur(st, dict(g)['path']) == self.cur(st, x[1])]
                for o, d in own:
                    if st.info[o].status == 'freed': ev.append(x)
                    elif self.flag(st, o, 'deleted') == 1: ogset(st, o, path=None)
                    elif d['mode'] in ('complete', 'writing') and not self.redeclared(st, o): ev.append(x)
            elif x[0] == 'opened':
                if fd is not None and fd.__class__ is Lin and st.current(x[1]) == fd: ev.append((x[0], x[1]))
        old = st.g.get('ev'); self.reset_blocks(E, st); st.g['ev'] = tuple(dict.fromkeys(ev))
        z = True
        for k in [k for k in st.g if k[:4] == 'err:']:
            v = st.current(st.g[k]) if st.g[k] is not None else Z
            if v == Z or st.prove(v) and st.prove(v.mul(-1)): st.g.pop(k)
            else: z = False
        if z:
            c = st.cells(self.G)
            for n in ACC: c.pop((self.df[n]['o'], self.df[n]['w']), None)
    def entered(self, E, st, F, args):
        super().entered(E, st, F, args)
        if 'member' in st.g and C in st.mem and F.key in ('monitoring_add', 'monitoring_destroy'):
            self.ob('changes of the list of subscribers'); m = st.g['member']
            if F.key == 'monitoring_add':
                if m: self.report(E, st, 'mon-twice', ('C23', 'C22'), 'a subscriber is put on the list of subscribers again')
                st.g['member'] = 1
            else:
                w = self.cget(E, st, 'is_writing')
                if w != K(m): self.report(E, st, 'mon-flag', ('C23', 'C22'), 'a subscriber that ends is not taken off the list of subscribers' if m else 'a connection is taken off the list of subscribers that is not on it')
                st.g['member'] = 0
        if F.key == self.suite.closefn and self.tpeek(st, 'entry') is not None:
            e = self.tpeek(st, 'entry')
            o = e.o if e.__class__ is Ptr and dict(st.og.get(e.o, ())).get('k') == 'E' and st.info[e.o].status != 'freed' else None
            st.g['ending'] = (o, self.flag(st, o, 'writing'), self.flag(st, o, 'deleted')) if o is not None else None
    def returned(self, E, st, F, ret):
        super().returned(E, st, F, ret)
        if F.key == self.suite.closefn and 'ending' in st.g:
            x = st.g.pop('ending'); gone = x is not None and (x[0] not in st.info or st.info[x[0]].status == 'freed')
            if x is not None and x[1] == 0 and x[2] == 0:
                self.ob('stored values left alone when a request ends')
                if gone or self.flag(st, x[0], 'deleted') == 1: self.report(E, st, 'removed', ('C03', 'C05'), 'the end of a request removes a value that is stored completely')
            elif x is not None and x[1] == 1 and x[2] == 0 and getattr(self, 'd', None) is not None and x[0] in self.redecl:
                self.ob('incomplete values removed when an upload ends')
                if not gone and self.flag(st, x[0], 'deleted') != 1: self.report(E, st, 'incomplete', ('C03', 'C05', 'C22'), 'an upload ends before its value is complete and the value is not removed')
        if self.outer(E, F) and not st.dead: self.normal(E, st)
        if self.scanner(F) and C in st.mem and not st.dead:
            self.anchor(st)
    def moved(self, st, v):
        """how much of the input is consumed while a body is received"""
        if 'body' not in st.g: return
        v = st.current(v); r = st.g.get('rp')
        if v.one() and sid(v) in DEFS and DEFS[sid(v)][0] == 'wrap' and DEFS[sid(v)][1][0] == 16: v = st.current(DEFS[sid(v)][1][2])
        m = st.g.get('moved')
        if m is None or r is None or v == Z: return        # (0: a buffer that was read completely starts over)
        d = v.sub(r)
        st.g['moved'] = m.add(d)
    def event(self, E, st, *x):
        if x[0] in ('write', 'sendfile', 'lseek', 'lseek!', 'pwrite', 'read', 'pread') and self.mode == 'handler': self.transfer(E, st, x)
        if x[0] in ('epoll_ctl', 'epoll_ctl!'):
            if len(x) > 4 and x[4].__class__ is Ptr:
                v = st.mem.get(x[4].o, {}).get((0, 32)); v = st.current(v) if v.__class__ is Lin else v
                if x[0] == 'epoll_ctl!': st.g['armfail'] = 1
                else: st.g['armed'] = v.c if v.__class__ is Lin and v.const else 0; st.g.pop('armfail', None)
            return
        super().event(E, st, *x)
    def transfer(self, E, st, x):
        R = lambda rule, props, msg: self.report(E, st, rule, props, msg)
        cur = lambda v: st.current(v) if v.__class__ is Lin else v
        fd = cur(x[1]); sock = self.cget(E, st, 'client_sock')
        if x[0] in ('lseek', 'lseek!'): st.g['seek'] = (fd, cur(x[2])) if x[0] == 'lseek' and x[3] == Z else None; return
        tfd, pos, end = self.tpeek(st, 'fd'), self.tpeek(st, 'position'), self.tpeek(st, 'end_position')
        if x[0] == 'sendfile':
            self.ob('transfers of stored bytes')
            src, off, n, k = cur(x[2]), cur(x[3]), cur(x[4]), x[5]
            if fd != sock: R('send-where', ('C01', 'C04'), 'a stored value is sent to something else than the client'); return
            if tfd is None or src != tfd: R('send-from', ('C01', 'C04', 'C16'), 'what is sent is not read from the storage of the entry'); return
            if off is None and st.g.get('seek') and st.g['seek'][0] == tfd: off = st.g['seek'][1]
            if pos is None or end is None or off.__class__ is not Lin or not self.eqp(st, off, pos): R('send-position', ('C01',), 'the value is not sent from the position reached'); return
            if not st.prove(n.sub(end.sub(pos))): R('send-past-end', ('C01', 'C17', 'C04'), 'more than what is left of the value may be sent'); return
            if k == MONE: return
            st.g['adv'] = cur(pos.add(k)); st.g['left'] = cur(end.sub(pos).sub(k)); st.g['sentfile'] = 1
            return
        if x[0] in ('write', 'pwrite'):
            if fd == sock and not self.d.writing: R('direct-write', ('C01', 'C02'), 'something is written to the client outside of its output'); return
            self.ob('transfers of received bytes')
            if tfd is None or fd != tfd or not self.d.writing: R('store-where', ('C03', 'C04', 'C07', 'C16'), 'received bytes are written to something else than the storage of the entry being uploaded'); return
            off = cur(x[5]) if x[0] == 'pwrite' else (st.g['seek'][1] if st.g.get('seek') and st.g['seek'][0] == tfd else None)
            n, k = cur(x[3]), x[4]
            if pos is None or end is None or off.__class__ is not Lin or not self.eqp(st, off, pos): R('store-position', ('C03', 'C07', 'C25'), 'received bytes are not stored at the position reached'); return
            if not st.prove(n.sub(end.sub(pos))): R('store-past-end', ('C03', 'C07'), 'more bytes than were declared may be stored'); return
            if st.g.get('adv') is not None and not self.eqp(st, cur(st.g['adv']), pos): R('store-progress', ('C03',), 'the position does not move by the number of bytes stored')
            st.g['seek'] = None
            if k == MONE: st.g['iofail'] = 1; return
            st.g['adv'] = cur(pos.add(k)); st.g['stored'] = cur(st.g.get('stored') or Z).add(k)
    def anchor(self, st, full=False):
            if self.loose:
                c = st.cells(C); c.pop(self.rpos, None); c.pop(self.wpos, None); return
            # how much was consumed is forgotten
            c = st.cells(C); l = self.avail(st); lo, hi = (0, BUF) if full else st.bounds(l)
            r = fresh(0, 65535, 'read position'); n = fresh(max(0, lo), min(BUF, hi), 'received'); c[self.rpos] = r; c[self.wpos] = r.add(n)
    def call(self, E, st, name, args, I):
        if I is not None and I[2] is None: return self.dispatch(E, st, name, args, I)
        if name == 'http_read_handle' and E.stack: return self.nested(E, st, args, I)
        if name in LOOKUPS and E.stack: return getattr(self, 'x_' + name)(E, st, args, I)
        if name == 'db_table_handle_delete' and E.stack and self.loose and len(args) in (1, 2): return self.x_table_delete(E, st, args)
        if name == 'db_entry_open_create' and E.stack and self.loose and len(args) == 1: return self.x_create(E, st, args)
        if name in ('rbuf_copyn', 'rbuf_cmpn', 'rbuf_strntol') and E.stack: return getattr(self, 'x_' + name)(E, st, args, I)
        if name == 'db_lru_gc': return [(st, None)]
        if name == 'connection_stop_soon': return [(st, fresh(0, 1, 'stop'))]
        return super().call(E, st, name, args, I)
    # contracts of the look-ups (established by the analyses of db.h)
    def used_key(self, E, st, k):
        p = st.current(k) if k.__class__ is Lin else k
        if p.__class__ is not Ptr: return
        i = st.info.get(p.o)
        if i is not None and i.status == 'freed': self.uaf(E, st, p.o, 'use'); return
        st.info[p.o] = i.upd(status='freed')
    def named(self, E, st, k, n, what):
        """the name handed over has the length that was copied"""
        p = k; g = dict(st.og.get(p.o, ())) if p.__class__ is Ptr else {}
        self.ob('names handed to look-ups')
        m = g.get('copied')
        if m is None: self.report(E, st, 'name-source', ('C04',), 'the name of a %s looked up is not taken from the request' % what); return
        if not self.eqp(st, m, n): self.report(E, st, 'name-length', ('C04',), 'the name of a %s looked up has another length than what is taken from the request' % what)
    def x_table(self, E, st, a, write):
        self.named(E, st, a[0], a[1], 'table')
        out = []
        self.used_key(E, st, a[0])
        if st.dead: return []
        for tm in ('full', 'empty'):
            s = st.copy(); T = self.mk_table(E, s, tm); d = dict(s.og[T])
            if tm == 'empty' and not write: pass
            refs = s.current(self.get(E, s, T, self.tf, 'refs')); self.put(s, T, self.tf, 'refs', refs.plus(1))
            out.append((s, Ptr(T)))
        if not write: st.g['miss'] = 1; out.append((st, Z))
        return out
    def x_create(self, E, st, a):
        e = self.pobj(st, a[0])
        if e is None or dict(st.og.get(e, ())).get('k') != 'E': self.report(E, st, 'no-entry', ('C03', 'C06'), 'a file is created for something that is not an entry'); st.dead = True; return []
        if st.info[e].status == 'freed': self.uaf(E, st, e, 'use'); return []
        self.put(st, e, self.ef, 'it', fresh(0, 65535, 'it'))
        s2 = st.copy(); f = fresh(0, INTMAX, 'fd'); libc.ev_(E, st, 'opened', f, fresh())
        return [(st, f), (s2, MONE)]
    def x_table_delete(self, E, st, a):
        T = self.pobj(st, a[0])
        if T is None or dict(st.og.get(T, ())).get('k') != 'T': self.report(E, st, 'no-table', ('C05', 'C06'), 'something that is not a table is deleted'); st.dead = True; return []
        if st.info[T].status == 'freed': self.uaf(E, st, T, 'use'); return []
        d = st.current(self.peek(st, T, self.tf, 'deleted'))
        if d != Z: self.report(E, st, 'deleted-twice', ('C05', 'C06', 'C08'), 'a table that may have been deleted already is deleted'); st.dead = True; return []
        m = self.peek(st, T, self.tf, 'cache_hash_set').o
        self.put(st, T, self.tf, 'deleted', ONE)
        if st.maps[m][0] == 'any':
            refs = st.current(self.get(E, st, T, self.tf, 'refs')).plus(-1); self.put(st, T, self.tf, 'refs', refs)
            if not st.prove(K(1).sub(refs)): self.report(E, st, 'no-user', ('C05', 'C06'), 'a table is deleted that the caller does not hold'); st.dead = True; return []
            st.maps[m] = ('empty',); self.put(st, m, self.hf, 'size', Z)
        M = self.tables(E, st)
        for x in list(self.slots(st, M)):
            if x[0] == 'in' and x[3] == Ptr(T): return self.kh_del(E, st, [Ptr(M), x[1]], None)
        return [(st, None)]
    def x_db_table_get_read(self, E, st, a, I): return self.x_table(E, st, a, False)
    def x_db_table_get_write(self, E, st, a, I): return self.x_table(E, st, a, True)
    def x_entry(self, E, st, a, kind):
        self.named(E, st, a[1], a[2], 'key')
        T = self.pobj(st, a[0])
        if T is None or dict(st.og.get(T, ())).get('k') != 'T':
            self.report(E, st, 'no-table', ('C04', 'C06'), 'a key is looked up in something that is not a table'); st.dead = True; return []
        if st.info[T].status == 'freed': self.uaf(E, st, T, 'use'); return []
        self.used_key(E, st, a[1])
        if st.dead: return []
        out = []
        dl = st.current(self.peek(st, T, self.tf, 'deleted')); full = st.maps[self.peek(st, T, self.tf, 'cache_hash_set').o][0] == 'any'
        if kind != 'write':
            if full and dl == Z:
                for em in ('complete',) if kind == 'read' else ('complete', 'writing'):
                    s = st.copy(); e = self.mk_entry(E, s, T, em); r = s.current(self.get(E, s, e, self.ef, 'refs')); self.put(s, e, self.ef, 'refs', r.plus(1))
                    out.append((s, Ptr(e)))
        elif True:
            s = st.copy()
            if dl == Z and not full:
                # the table gets its first key
                m = self.peek(s, T, self.tf, 'cache_hash_set').o; s.maps[m] = ('any',)
                self.put(s, m, self.hf, 'size', fresh(1, 1 << 30, 'size')); self.put(s, m, self.hf, 'n_buckets', fresh(1, 1 << 31, 'n_buckets'))
                s.add_le(self.peek(s, m, self.hf, 'size').sub(self.peek(s, m, self.hf, 'n_buckets')))
                d = dict(s.og[T]); ogset(s, T, own0=1)
                r = s.current(self.get(E, s, T, self.tf, 'refs')); self.put(s, T, self.tf, 'refs', r.plus(1)); self.scan_start(E, s, m)
            if dl == Z:
                e = self.mk_entry(E, s, T, 'writing'); r = s.current(self.get(E, s, e, self.ef, 'refs')); self.put(s, e, self.ef, 'refs', r.plus(1))
                # a new entry: nobody else uses it, nothing is stored yet
                s.add_eq(s.current(dict(s.og[e])['o'])) if s.lo(dict(s.og[e])['o']) <= 0 else None
                for n, v in (('data_length', Z), ('block', K(-2)), ('expires', Z)): self.put(s, e, self.ef, n, v)
                ogset(s, e, dl0=Z, b0=K(-2))
                out.append((s, Ptr(e)))
        if kind != 'write': st.g['miss'] = 1
        out.append((st, Z))
        return out
    def x_db_entry_get_read(self, E, st, a, I): return self.x_entry(E, st, a, 'read')
    def x_db_entry_get_write(self, E, st, a, I): return self.x_entry(E, st, a, 'write')
    def x_db_entry_get_delete(self, E, st, a, I): return self.x_entry(E, st, a, 'delete')
    # contracts of the input buffer (established by the analyses of read_buffer.h)
    def x_rbuf_copyn(self, E, st, a, I):
        d, n = a[1], a[2]; L = self.avail(st); self.ob('copies out of the input buffer')
        if not self.loose and n.__class__ is Lin and (not st.prove(n.sub(L))): self.report(E, st, 'copy-short', ('C04', 'C17'), 'more is copied from the input buffer than was received')
        libc.touch(E, st, d, n, 'write')
        if st.dead: return []
        if d.__class__ is Ptr: ogset(st, d.o, copied=n)
        st.g['looked'] = 1
        return [(st, n)]
    def x_rbuf_cmpn(self, E, st, a, I):
        s2 = st.copy(); t = a[1].o[1] if a[1].__class__ is Ptr and a[1].o[0] == 'str' else None; n = a[2]; self.ob('words compared')
        st.g['looked'] = s2.g['looked'] = 1
        if t is None or n.__class__ is not Lin or not n.const or n.c != len(t): self.report(E, st, 'word-length', ('C18', 'C04'), 'a word of the request is not compared with all of %r' % t)
        if not self.loose and not st.prove(n.sub(self.avail(st))): self.report(E, st, 'compare-short', ('C17',), 'more of the input buffer is compared than was received')
        st.g['word'] = t
        v = fresh(-255, 255, 'cmp'); s2.add_ne(v)
        return [(st, Z), (s2, v)]
    def x_rbuf_strntol(self, E, st, a, I):
        s2 = st.copy(); v = fresh(0, INTMAX, 'number'); self.ob('numbers read')
        if not self.loose and not st.prove(a[2].sub(self.avail(st))): self.report(E, st, 'number-short', ('C17', 'C18'), 'a number is read past the end of what was received')
        p = a[1]
        E.store(st, (p.o, p.f, 0, 32), v, 'i32')
        st.g['number'] = v; st.g['looked'] = s2.g['looked'] = 1
        s2.g['badnum'] = 1
        return [(st, ONE), (s2, Z)]

    # ---- where the analysis of one handler ends
    def dispatch(self, E, st, name, args, I):
        self.cut.append(st.copy()); st.g['dispatched'] = 1
        if self.mode in ('read', 'write'):
            self.ondispatch(E, st, name)
            out = []
            for r in range(4):
                s = st.copy(); s.g['ret'] = r; self.anyconn(E, s); out.append((s, K(r)))
            return out
        return self.nested(E, st, args, I)
    def ondispatch(self, E, st, name): pass
    def anyconn(self, E, st):
        """the handler left the connection in some admissible state"""
        c = st.cells(C)
        for k in [k for k in c if k != (self.cf['client_sock']['o'], 32)]: del c[k]
        r = fresh(0, 65535, 'read position'); l = fresh(0, BUF, 'received'); c[self.rpos] = r; c[self.wpos] = r.add(l)
        self.cput(st, 'epollin', fresh(0, 1)); self.cput(st, 'epollout', fresh(0, 1))
    def nested(self, E, st, args, I):
        """the next request is looked at from within a handler"""
        self.cut.append(st.copy())
        s2 = st.copy(); out = []
        for s, v in ((st, self.ec['close_connection']), (s2, self.ec['close_connection'] + 2)):
            s.g['nested'] = v; s.g['poison'] = 1; out.append((s, K(v)))
        return out

    def heldusers(self, st): return self.suite.users(st)
    # the recency list is followed by the analyses of db.h: here anything may be linked to anything
    def lru_end(self, E, st, n): return self.anyentry(st)
    def anyentry(self, st):
        v = fresh_t('p:r:cache_entry', 'listed entry'); o = ('*', sid(v)); ogset(st, o, k='Ls'); st.info[o] = Info('ext', 'cache_entry', K(self.size['E'])); return v
    def fold(self, E, st):
        for n in ('lru_head', 'lru_tail'): st.cells(self.G).pop((self.df[n]['o'], 64), None); st.g.pop('lru0:' + n, None)
        for o, g in list(st.og.items()):
            if o in st.mem and o[0] != '*' and dict(g).get('k') == 'E' and st.info[o].status != 'freed':
                for n in ('lru_prev', 'lru_next'): st.cells(o).pop((self.ef[n]['o'], 64), None)
            elif o[0] == '*' and dict(g).get('k') == 'Ls' and o in st.mem:
                for k in [k for k in st.mem[o]]: st.cells(o).pop(k)
        for k in [k for k in st.g if k[:4] == 'err:']:
            v = st.current(st.g[k]) if st.g[k] is not None else Z
            if v == Z: st.g.pop(k)
        for k in [k for k in st.mem.get(C, ()) if k[0] == 's']: st.cells(C).pop(k)
        c = st.mem.get(C)
        if c:
            lo, hi = self.buf0, self.buf0 + BUF * 8
            for k in [k for k in c if lo <= k[0] < hi]: st.cells(C).pop(k)
        if st.mem.get(RING): st.cells(RING).clear()
        super().fold(E, st)

# ---------------------------------------------------------------------------------------------------
class HSuite(Suite):
    def __init__(self, P, budget=600):
        self.P = P; self.W = (getattr(self, 'WORLD', None) or Http)(P); self.E = Engine(P, self.W, budget); self.E.models = dict(libc.MODELS); self.W.suite = self; self.E.alts = 12; self.E.nmax = 300; self.E.exact = 300
        self.stats = []; self.done = {}; self.todo = []; self.trail = {}
        self.closefn = [k for k in P.functions if k.split('/')[0] == 'http_cleanup'][0]
    # ---- descriptions -> states
    def concretise(self, d):
        W, E = self.W, self.E
        st0, fr = W.start(E)[1]; W.tables(E, st0)
        E.load(st0, (W.nowo, Z) + W.nowk, 'i64')
        st = st0; st.info[C] = Info('local', 'scache_connection', K(W.csize), default='lazy'); st.mem[C] = {}; st.own.add(C)
        st.info[RING] = Info('local', 'i8', K(BUF), default='lazy'); st.mem[RING] = {}; st.own.add(RING)
        c = st.cells(C)
        if not W.loose: r = fresh(0, 65535, 'read position'); l = fresh(0, BUF, 'received'); c[W.rpos] = r; c[W.wpos] = r.add(l)
        W.cput(st, 'handler', Fnp(d.handler)); W.cput(st, 'ltype', K(d.ltype))
        W.cput(st, 'method', K(d.method) if d.method.__class__ is int else fresh(0, 65535, 'method'))
        W.cput(st, 'state', K(d.state) if d.state.__class__ is int else fresh(0, (1 << 32) - 1, 'state'))
        W.cput(st, 'is_writing', K(d.writing)); W.cput(st, 'epollin', K(d.epin)); W.cput(st, 'epollout', K(d.epout))
        W.cput(st, 'client_sock', fresh(3, (1 << 31) - 1, 'client_sock'))
        if d.out is None or d.epout:
            W.cput(st, 'output_buffer', Z); W.cput(st, 'output_buffer_free', Z); W.cput(st, 'output_length', Z)
        elif d.out[0] == 'ext': W.cput(st, 'output_buffer', Ptr(W.mobj(st, 'stream text', 'i8', 1 << 20))); W.cput(st, 'output_length', fresh(0, 1 << 20, 'length')); W.cput(st, 'output_buffer_free', Z)
        elif d.out[0] == 'const':
            W.cput(st, 'output_buffer', Ptr(('str', d.out[1]))); W.cput(st, 'output_length', K(len(d.out[1]))); W.cput(st, 'output_buffer_free', Z)
        else:
            n = fresh(0, 1 << 30, 'output_length'); o = W.mobj(st, 'output', 'i8', n); W.cput(st, 'output_buffer', Ptr(o)); W.cput(st, 'output_length', n); W.cput(st, 'output_buffer_free', Ptr(o))
        st.g['ev'] = (); st.g['word'] = d.hdr
        for s, e, T, what in self.targets(st, d):
            s.g['held'] = (e, T)
            yield s, e, T, what
    def targets(self, st, d):
        W, E = self.W, self.E
        def positions(s, table=False):
            if table:
                hi = (1 << 31) - 1 if d.pos == 'small' else (1 << 32) - 1
                W.tput(s, 'start', fresh(0, hi, 'start'), True); W.tput(s, 'limit', fresh(0, hi, 'limit'), True)
            else:
                if d.pos == 'skip':
                    p = fresh(0, INTMAX, 'position'); e = fresh(0, INTMAX, 'end'); s.add_le(p.sub(e)); W.tput(s, 'position', p); W.tput(s, 'end_position', s.current(e))
        if d.ekind is None:
            W.tput(st, 'entry', Z); positions(st)
            if d.fd == 'none': W.tput(st, 'fd', MONE)
            yield st, None, None, ''; return
        if d.ekind == 'stale':
            o = W.mobj(st, 'stale', None, 64); st.info[o] = st.info[o].upd(status='freed'); W.tput(st, 'entry', Ptr(o)); yield st, None, None, 'stale target'; return
        if d.ekind == 'table':
            for tm in ('full', 'empty', 'deleted'):
                s = st.copy(); T = W.mk_table(E, s, tm, held=d.theld); W.tput(s, 'table', Ptr(T), True); positions(s, True)
                yield s, None, T, tm + ' table'
            return
        for em in d.emode:
            for tm in (('full',) if em in ('complete', 'writing') else ('full', 'empty', 'deleted')):
                s = st.copy(); T = W.mk_table(E, s, tm, held=d.theld); e = W.mk_entry(E, s, T, em, held=d.eheld)
                W.tput(s, 'entry', Ptr(e)); dl = W.peek(s, e, W.ef, 'data_length'); b = W.peek(s, e, W.ef, 'block'); bf = W.D(E, s, 'fd_blockfile')
                ok = True
                if d.fd == 'unset':
                    W.tput(s, 'fd', MONE); ok = s.add_eq(dl) and s.add_eq(s.current(b).plus(2))
                elif d.fd == 'block':
                    W.tput(s, 'fd', bf); ok = s.add_le(dl.plus(-W.BL)) and s.add_le(s.current(b).mul(-1).plus(-1))
                elif d.fd == 'file':
                    v = fresh(0, (1 << 31) - 1, 'fd'); s.add_ne(v.sub(bf)); W.tput(s, 'fd', v); ok = s.add_le(K(W.BL + 1).sub(dl))
                elif d.fd == 'none':
                    W.tput(s, 'fd', MONE); ok = s.add_le(K(W.BL + 1).sub(dl))
                elif d.fd == 'nofd': W.tput(s, 'fd', MONE)
                if not ok or not s.add_le(s.current(dl).plus(-INTMAX)): continue
                dl, b = s.current(dl), s.current(b)
                base = b.mul(W.BL) if d.fd == 'block' else Z
                if d.pos == 'start': W.tput(s, 'position', base); W.tput(s, 'end_position', base.add(dl))
                elif d.pos == 'mid':
                    p = fresh(0, (1 << 32) - 1, 'done'); s.add_le(p.sub(dl)); p = s.current(p)
                    W.tput(s, 'position', base.add(p)); W.tput(s, 'end_position', base.add(s.current(dl)))
                # what the invariants of an entry in use add: none of this depends on the connection
                x = dict(s.og[e]); ogset(s, e, dl0=s.current(x['dl0']), b0=s.current(x['b0']))
                yield s, e, T, '%s entry, %s table' % (em, tm)
    # ---- states -> descriptions
    def text(self, st, p, n):
        """what is about to be sent"""
        W = self.W
        if p.__class__ is Lin and p == Z: return None
        t = W.consttext(st, p)
        if t is not None: return ('const', t, n)
        if p.__class__ is Ptr and p.o[0] in 'HM':
            g = dict(st.og.get(p.o, ()))
            return ('heap', self.pieces(st, p, n, g.get('parts') or ()), n)
        return ('other', None, n)
    def describe(self, st, handler=None):
        W, E = self.W, self.E
        R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        h = W.cget(E, st, 'handler')
        if h.__class__ is not Fnp: R('no-handler', ('C02', 'C22'), 'it is not determined who deals with the next event of the connection'); return None
        cst = lambda n: (lambda v: v.c if v.__class__ is Lin and v.const else None)(W.cget(E, st, n))
        p, n = W.cget(E, st, 'output_buffer'), W.cget(E, st, 'output_length')
        t = self.text(st, p, n); fr = W.cget(E, st, 'output_buffer_free')
        if t is not None:
            if t[0] == 'const':
                if n.__class__ is not Lin or not n.const or n.c != len(t[1]): R('output-length', ('C01', 'C17'), 'the length of what is sent is not the length of the text %r' % t[1][:40])
                if fr != Z: R('output-free', ('C06', 'C26'), 'a text that was not allocated is to be freed once it is sent, or an allocated one is not')
                t = ('const', t[1])
            elif t[0] == 'heap':
                i = st.info.get(p.o)
                if i is not None and i.status == 'freed': R('output-freed', ('C06',), 'what is to be sent was freed')
                elif i is not None and i.size is not None and not st.prove(st.current(p.f.add(n)).sub(st.current(i.size))): R('output-length', ('C01', 'C17'), 'more is sent than the buffer holds')
                elif i is not None and i.size is not None and not W.eqp(st, st.current(i.size), n): R('output-length', ('C01',), 'not all of the buffer prepared is sent')
                if fr != p: R('output-free', ('C06', 'C26'), 'a buffer to be sent is not freed once it is sent')
                t = ('heap', self.canontext(st, t[1]))
            elif self.d.ltype != W.ec['cache_connection'] and fr == Z: t = ('ext', None)        # the text of the monitoring stream, built at start
            else: R('output-text', ('C01', 'C17'), 'it is not determined what is sent'); t = ('heap', None)
        d = dict(handler=h.n, ltype=cst('ltype'), method=cst('method'), state=cst('state'), writing=cst('is_writing'), epin=cst('epollin'), epout=cst('epollout'), out=t, sent=st.g.get('sent', ()), hdr=None, num=None)
        d['hdr'] = (st.g.get('word') or '').strip(': ').lower() or None if self.reaches(h.n, ('rbuf_strntol',)) else None
        if d['epin'] is None or d['epout'] is None or d['ltype'] is None or d['writing'] is None: R('flags', ('C02',), 'it is not determined which events the connection waits for'); return None
        v = W.tpeek(st, 'entry'); d.update(ekind=None, emode=(), eheld=0, theld=0, fd='free', pos='free')
        fd = W.tpeek(st, 'fd'); pos = W.tpeek(st, 'position'); end = W.tpeek(st, 'end_position')
        if v is None or v.__class__ is Lin and v == Z:
            if v is None: d['ekind'] = None
            if fd == MONE: d['fd'] = 'none'
            if pos is not None and end is not None and pos.__class__ is Lin and end.__class__ is Lin and st.lo(pos) >= 0 and st.hi(end) <= INTMAX and st.prove(pos.sub(end)): d['pos'] = 'skip'
            return Desc(**d)
        o = W.pobj(st, v); g = dict(st.og.get(o, ())); i = st.info.get(o)
        if i is None or i.status == 'freed' or g.get('k') not in ('E', 'T'): d['ekind'] = 'stale'; return Desc(**d)
        def held(o, fld):
            g = dict(st.og[o]); r = st.current(W.get(E, st, o, fld, 'refs')).sub(st.current(g['o']))
            if g['k'] == 'T':
                ms = W.peek(st, o, W.tf, 'cache_hash_set'); sz = st.current(W.get(E, st, ms.o, W.hf, 'size'))
                de = W.peek(st, o, W.tf, 'deleted'); own = 0 if st.current(de) == ONE else 1 if st.lo(sz) >= 1 else 0 if st.hi(sz) <= 0 else None
                if own is None: own = 1 if st.prove(K(1).sub(sz)) else 0
                r = r.plus(-own)
            r = st.current(r)
            return r.c if r.const else None
        h0 = st.g.get('held0') or {}
        if g['k'] == 'T':
            d['ekind'] = 'table'; d['theld'] = held(o, W.tf)
            d['theld'] = None if d['theld'] is None else d['theld'] + h0.get(o, 0)
            a, b = W.tpeek(st, 'start', True), W.tpeek(st, 'limit', True)
            d['pos'] = 'small' if a is not None and b is not None and st.hi(a) < 1 << 31 and st.hi(b) < 1 << 31 else 'free'
        else:
            d['ekind'] = 'entry'; T = W.pobj(st, W.get(E, st, o, W.ef, 'table'))
            d['eheld'] = held(o, W.ef); d['eheld'] = None if d['eheld'] is None else d['eheld'] + h0.get(o, 0)
            if T is not None and st.info[T].status != 'freed' and dict(st.og.get(T, ())).get('k') == 'T':
                x = held(T, W.tf); d['theld'] = None if x is None else x + h0.get(T, 0)
            w_, de = W.flag(st, o, 'writing'), W.flag(st, o, 'deleted')
            m = {(0, 0): 'complete', (1, 0): 'writing', (0, 1): 'deleted', (1, 1): 'gone'}.get((w_, de))
            if m is None: R('entry-flag', ('C05',), 'the state of the entry is not determined'); return None
            cl = {'complete': ('complete', 'deleted'), 'writing': ('writing', 'gone') if d['writing'] else ('complete', 'writing', 'deleted', 'gone'), 'deleted': ('deleted',), 'gone': ('gone',) if d['writing'] else ('deleted', 'gone')}
            d['emode'] = cl[m]
            dl = st.current(W.get(E, st, o, W.ef, 'data_length')); b = st.current(W.get(E, st, o, W.ef, 'block')); bf = st.current(W.D(E, st, 'fd_blockfile'))
            big = 1 if st.prove(K(W.BL + 1).sub(dl)) else 0 if st.prove(dl.plus(-W.BL)) else None
            if fd is None: d['fd'] = 'free'
            elif fd == MONE:
                d['fd'] = 'unset' if dl == Z and b == K(-2) else 'none' if big == 1 else 'nofd'
            elif W.eqp(st, fd, bf) and big == 0: d['fd'] = 'block'
            elif big == 1 and st.prove_ne(st.current(fd).sub(bf)): d['fd'] = 'file'
            elif big == 1 and any(x[0] == 'opened' and st.current(x[1]) == fd for x in st.g.get('ev', ())): d['fd'] = 'file'
            else:
                # undecided between a file of its own and none: one case each
                d['fd'] = 'split' if big is None else 'free'
            if pos is not None and end is not None and d['fd'] in ('block', 'file', 'none', 'nofd'):
                base = b.mul(W.BL) if d['fd'] == 'block' else Z
                if W.eqp(st, end, base.add(dl)):
                    if W.eqp(st, pos, base): d['pos'] = 'start'
                    elif st.prove(base.sub(pos)) and st.prove(pos.sub(end)): d['pos'] = 'mid'
        return Desc(**d)
    def canontext(self, st, t): return t
    def pieces(self, st, p, n, parts):
        """an allocated text as constant pieces and {what the rest stands for}"""
        W, E = self.W, self.E; out = ''; at = Z; parts = list(parts)
        rest = lambda i: functools.reduce(lambda a, b: a.add(b), (st.current(x[2]) for x in parts[i:]), Z)
        for i, (f, x, l) in enumerate(parts):
            f, l = st.current(f), st.current(l)
            if not W.eqp(st, f, at) or x is None: return None
            at = at.add(l)
            if x[0] == 'const': out += x[1]
            elif x[0] == 'key': out += '{key}' if x[1] else '{part of a key}'
            elif x[0] == 'text': out += '{text}' if x[1] else '{part of a text}'
            elif x[0] == 'fmt' and x[1] is not None:
                pos = 0; k = 0
                for m in libc.CONV.finditer(x[1]):
                    out += x[1][pos:m.start()]; pos = m.end()
                    if m.group(5) == '%': out += '%'; continue
                    a = x[2][k] if k < len(x[2]) else None; k += 1
                    out += '{%s}' % self.label(st, a, m, rest(i + 1))
                out += x[1][pos:]
            else: return None
        if p.f != Z or not W.eqp(st, at, n): return None
        return out
    def label(self, st, a, m, rest):
        """what a value in a response stands for"""
        W, E = self.W, self.E
        if a.__class__ is not Lin or m.group(5) not in 'diu': return m.group(5)
        a = st.current(a)
        v = W.tpeek(st, 'entry'); o = W.pobj(st, v) if v is not None and v != Z else None
        k = dict(st.og.get(o, ())).get('k') if o is not None else None
        if k == 'E' and st.info[o].status != 'freed':
            if W.eqp(st, a, st.current(W.get(E, st, o, W.ef, 'data_length'))): return 'size'
            x = st.current(W.get(E, st, o, W.ef, 'expires')); now = st.current(E.load(st, (W.nowo, Z) + W.nowk, 'i64'))
            if W.eqp(st, x, Z): 
                if a == Z: return 'ttl'
            elif W.eqp(st, a, x.sub(now)): return 'ttl'
        if k == 'T' and st.info[o].status != 'freed':
            ms = W.peek(st, o, W.tf, 'cache_hash_set')
            if ms is not None and W.eqp(st, a, st.current(W.get(E, st, ms.o, W.hf, 'n_buckets'))): return 'slots'
            if ms is not None and W.eqp(st, a, st.current(W.get(E, st, ms.o, W.hf, 'size'))): return 'entries'
        if rest != Z and W.eqp(st, a, rest): return 'rest'
        return '?'
    # ---- responses
    def respond(self, st, d, x):
        """what was sent so far, after this step; a finished response is checked"""
        W, E = self.W, self.E
        R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        toks = d.sent
        if d.ltype != W.ec['cache_connection']:
            if x is None: return d.sent
            w = W.cget(E, st, 'is_writing')
            if 'member' in st.g:
                W.ob('subscribers after a step')
                if w != K(st.g['member']): R('mon-flag', ('C23', 'C22'), 'a connection is on the list of subscribers but not marked so, or the reverse')
                if d.sent == ('stream',) and not d.writing and st.g['member'] != 1: R('mon-unlisted', ('C23',), 'the stream of a subscriber has started but it is not on the list of subscribers')
            return ('stream',) if x.out is not None and x.out[0] == 'ext' else ()
        if 'sentfile' in st.g and not (toks and toks[-1].endswith('{body}')): toks = toks + ('{body}',)
        if x is not None and x.epout and x.out is not None:
            t = x.out[1]
            if t is None: R('text', ('C01', 'C17'), 'what a response consists of can not be determined: it is not built from constant text, a number and the text prepared'); t = '{?}'
            if self.answers(d): self.answer(st, d, x, t, R)
            toks = toks + (t,)
        W.ob('steps of responses')
        if not toks: return ()
        if x is None: return toks
        tx = ''.join(toks)
        if not tx.startswith('HTTP/1.'): R('status-line', ('C01',), 'a response does not begin with a status line: %r' % tx[:40]); return ()
        h, sep, b = tx.partition('\r\n\r\n')
        L = h.split('\r\n')
        if not re.match(r'HTTP/1\.[01] (200|400|404) [ -~]+$', L[0]): R('status-line', ('C01',), 'the status line of a response is malformed: %r' % L[0][:40])
        cl = [l for l in L[1:] if l.lower().startswith('content-length:')]
        if sep or x.epin:
            for l in L[1:]:
                if not re.match(r'[A-Za-z][A-Za-z0-9-]*: [^\r\n]*$', l): R('header-line', ('C01',), 'a header line of a response is malformed: %r' % l[:40])
            if len(cl) > 1: R('content-length', ('C01',), 'a response announces its length twice')
            for l in L[1:]:
                if l.lower().startswith('x-ttl:') and l.split(':')[1].strip() != '{ttl}': R('ttl-text', ('C11', 'C01'), 'the X-Ttl of a response is not the time left')
                if '{?}' in l: R('header-value', ('C01', 'C11'), 'a number in a response is neither the size of the value, the time left, nor the length of what follows: %r' % l[:40])
        if x.epin:
            if not sep: R('no-blank-line', ('C01', 'C02'), 'the connection waits for the next request although the headers of its response were not finished: %r' % tx[:60])
            elif not cl: R('content-length', ('C01',), 'a response on a connection that is kept does not announce its length: %r' % tx[:60])
            else:
                n = cl[0].split(':')[1].strip()
                if n.isdigit():
                    if '{' in b or len(b) != int(n): R('content-length', ('C01',), 'a response announces %s bytes and has %d: %r' % (n, len(b), tx[:60]))
                elif n == '{rest}':
                    if b != '{text}': R('content-length', ('C01',), 'the text that follows is not what the length was computed from')
                elif n == '{size}':
                    head = self.is_method(d, 'HEAD')
                    if head and b: R('head-body', ('C01',), 'a response to HEAD has a body')
                    if not head:
                        left = st.g.get('left')
                        if b not in ('', '{body}'): R('body', ('C01',), 'something else is sent after a value')
                        if left is None or not W.eqp(st, st.current(left), Z): R('body-short', ('C01', 'C02'), 'the connection turns to the next request although the value may not be sent completely')
                else: R('content-length', ('C01',), 'the Content-Length of a response is not the size of what follows: %r' % n[:40])
            if st.g.get('held1'): pass
            return ()
        if sep and not cl and len(toks) > 1 and b:
            # a listing: sent until the connection is closed
            return (h + sep,) if toks[-1] in ('{key}', '\r\n') or len(toks) <= 2 else (R('listing-text', ('C01', 'C45'), 'a listing contains something else than keys: %r' % toks[-1][:40]), ())[1]
        return (tx,)
    METHODS = None
    def is_method(self, d, name, level=None):
        if self.METHODS is None:
            m = {}
            for f in os.listdir(os.path.join(REPO, 'src/core')):
                if f.endswith('.h'):
                    for k, v in re.findall(r'#\s*define\s+REQUEST_(\w+)\s+(0x[0-9a-fA-F]+|\d+)\s*$', open(os.path.join(REPO, 'src/core', f), errors='replace').read(), re.M): m[k] = int(v, 0)
            HSuite.METHODS = m
        b = self.METHODS.get('HTTP' + name)
        if b is None or d.method.__class__ is not int: raise AnalysisBroken('anchor: REQUEST_HTTP%s' % name)
        if not d.method & b: return False
        return level is None or bool(d.method & self.METHODS.get('CACHE_LEVEL' + level, 0))
    def answers(self, d): return d.ltype == self.W.ec['cache_connection'] and d.method.__class__ is int and d.method != 0 and not d.sent
    def answer(self, st, d, x, t, R):
        """the response fits what was found"""
        W, E = self.W, self.E; s = re.match(r'HTTP/1\.[01] (\d\d\d)', t); s = s.group(1) if s else None
        if 'badnum' in st.g:
            if s != '400': R('bad-number', ('C18',), 'a header value that is not a number is answered with %s' % s)
            return
        if s == '400' or s is None: return
        key, tab = self.is_method(d, 'GET', 'KEY') or self.is_method(d, 'HEAD', 'KEY') or self.is_method(d, 'DELETE', 'KEY'), self.is_method(d, 'GET', 'TABLE')
        self.W.ob('answers compared with what was found')
        if (d.ekind is None and key or d.num == 'miss' or 'miss' in st.g) and s == '200' and (key or any(self.is_method(d, m) for m in ('GET', 'HEAD', 'DELETE'))): R('answer', ('C01', 'C03', 'C04', 'C05'), 'a request for something that was not found is answered with success')
        if d.ekind == 'entry' and key and s == '404': R('answer', ('C01', 'C04'), 'a request for an entry that was found is answered with 404')
        if d.ekind == 'table' and self.is_method(d, 'GET', 'TABLE') and s == '404': R('answer', ('C01', 'C04'), 'a request for a table that was found is answered with 404')
        if self.is_method(d, 'PUT', 'KEY') and s == '200':
            if d.writing:
                e = next(iter(W.redecl), None)
                left = st.g.get('left1')
                if left is None or not W.eqp(st, st.current(left), Z): R('early-ack', ('C03',), 'a PUT is acknowledged although its body may not be stored completely')
                elif e is not None and st.info[e].status != 'freed' and W.flag(st, e, 'writing') != 0: R('not-completed', ('C03',), 'a PUT is acknowledged although its entry is not marked complete')
            else:
                if d.pos == 'skip' and (st.g.get('left1') is None or not W.eqp(st, st.current(st.g['left1']), Z)): R('early-ack', ('C03', 'C02'), 'a PUT is acknowledged before its body was read')
        if 'iofail' in st.g and s == '200': R('failed-write', ('C25', 'C03'), 'a PUT is acknowledged although storing its body failed')
    def body(self, st, d):
        """a body: what is taken from the input is what the position moves by"""
        W, E = self.W, self.E
        if 'p0' not in st.g: return
        R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        p0, e0 = st.g['p0']; p1 = W.tpeek(st, 'position'); W.ob('progress of bodies')
        if p1 is None or p0 is None: return
        dp = p1.sub(st.current(p0)); mv = st.g.get('moved')
        if mv is None or not (W.eqp(st, dp, st.current(mv)) or W.eqp(st, unwrap(st, dp), unwrap(st, st.current(mv)))): R('body-progress', ('C03', 'C02'), 'the position of an upload does not move by the number of bytes taken from the input')
        if d.writing and not W.eqp(st, dp, st.current(st.g.get('stored') or Z)): R('body-stored', ('C03', 'C25'), 'the position of an upload moves by another number of bytes than was stored')
        if e0 is not None and not st.prove(p1.sub(st.current(e0))): R('body-past-end', ('C03',), 'more of the input than the declared length is taken as the body')
        if e0 is not None: st.g['left1'] = st.current(e0).sub(p1)
    # ---- one step
    def storing(self, name):
        """does a handler itself store what it receives?"""
        return self.reaches(name, ('write', 'pwrite', 'pwrite64', 'writev'))
    def reaches(self, name, fs):
        """does a handler call one of these functions, itself or through functions of its file?"""
        if not hasattr(self, '_reach'): self._reach = {}
        if (name, fs) in self._reach: return self._reach[name, fs]
        P = self.P; seen = set(); todo = [self.key(name)]; r = False; f0 = P.functions[self.key(name)]['file']
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            for b in P.fn(k).blocks:
                for I in b[0]:
                    if I[0] == 'C' and I[2]:
                        if I[2] in fs: r = True
                        elif I[2] in P.functions and P.functions[I[2]]['file'] == f0: todo.append(I[2])
        self._reach[name, fs] = r
        return r
    NUMBERS = {'content-length': ('PUT', 'KEY'), 'x-ttl': ('PUT', 'KEY'), 'x-limit': ('GET', 'TABLE'), 'x-start': ('GET', 'TABLE')}
    def fields(self, st, d):
        """what the values of headers are kept in"""
        W, E = self.W, self.E; r = {}
        if d.ekind == 'table': r['x-start'] = W.tpeek(st, 'start', True); r['x-limit'] = W.tpeek(st, 'limit', True)
        elif d.ekind == 'entry':
            e = W.pobj(st, W.tpeek(st, 'entry'))
            if e is not None and st.info[e].status != 'freed' and dict(st.og.get(e, ())).get('k') == 'E':
                r['content-length'] = W.get(E, st, e, W.ef, 'data_length'); r['x-ttl'] = W.get(E, st, e, W.ef, 'expires')
        elif d.ekind is None and d.pos == 'skip':
            a, b = W.tpeek(st, 'position'), W.tpeek(st, 'end_position')
            if a is not None and b is not None: r['content-length'] = b.sub(a)
        return r
    def numbers(self, st, d, x):
        """the number of a header goes where it belongs, and nowhere else"""
        W, E = self.W, self.E
        if d.method.__class__ is not int or d.ltype != W.ec['cache_connection'] or not self.reaches(d.handler, ('rbuf_strntol',)) or 'badnum' in st.g or x.sent and not d.sent: return
        R = lambda props, msg: W.report(E, st, 'header-number', props, msg, where=self.where)
        w = (d.hdr or '').strip(': ').lower(); u = self.NUMBERS.get(w); mine = bool(u) and self.is_method(d, *u)
        props = {'content-length': ('C03', 'C01'), 'x-ttl': ('C11',), 'x-limit': ('C18', 'C45'), 'x-start': ('C18', 'C45')}
        f0, f1 = self.fields(self.start_, d), self.fields(st, d); W.ob('fields compared with the header they come from')
        if mine and 'number' in st.g:
            n = st.current(st.g['number']); v = f1.get(w)
            if v is not None:
                v = st.current(v)
                if w == 'x-ttl':
                    now = st.current(E.load(st, (W.nowo, Z) + W.nowk, 'i64'))
                    if not (n == Z and (W.eqp(st, v, st.current(f0[w])) or W.eqp(st, v, Z)) or W.eqp(st, v, n.add(now)) and st.prove_ne(n)): R(props[w], 'X-Ttl does not set the time of expiry to that many seconds from now')
                elif not W.eqp(st, v, n): R(props[w], 'the value of %s is not what is kept' % d.hdr.strip(': '))
        elif mine and x.handler != d.handler: R(props[w], 'the value of %s is not read' % d.hdr.strip(': '))
        for k, v in f1.items():
            if k in f0 and not (mine and k == w) and not W.eqp(st, st.current(v), st.current(f0[k])): R(props[k], 'what %s sets is changed by another header' % k)
    def key(self, name):
        ks = [k for k in self.P.functions if k == name or k.split('/')[0] == name]
        if len(ks) != 1: raise AnalysisBroken('anchor function %s not found' % name)
        return ks[0]
    def step(self, d):
        W, E = self.W, self.E; t = time.time(); nx = 0
        f = self.P.functions[self.key(d.handler)]
        self.where = '%s:%s (%s)' % (f['file'], f.get('l', 0), d.handler.split('::')[-1])
        for st, e, T, what in self.concretise(d):
            W.entry = '%s, method %s state %s%s %s' % (d.handler.split('::')[-1], hex(d.method) if d.method.__class__ is int else '?', d.state, ', upload' if d.writing else '', what)
            W.redecl = (e,) if d.writing and e else (); W.may_swap = bool(d.writing)
            if d.ekind == 'entry' and d.pos in ('start', 'mid') and d.epout: st.g['left'] = st.current(W.tpeek(st, 'end_position')).sub(st.current(W.tpeek(st, 'position')))
            if d.pos in ('start', 'mid', 'skip') and d.epin and self.storing(d.handler):
                st.g['body'] = 1; st.g['p0'] = (W.tpeek(st, 'position'), W.tpeek(st, 'end_position')); st.g['moved'] = Z
            st.g['held0'] = None; self.h0 = {o: n for o, n in ((e, d.eheld), (T, d.theld)) if o is not None and n}
            if d.ltype != W.ec['cache_connection']: st.g['member'] = d.writing
            W.mode = 'handler'; W.cut = []; E.stack = []; E.F = None; self.start_ = st.copy(); self.d = W.d = d; self.mark = len(SYM)
            out = E.run(st, self.key(d.handler), [Ptr(C)])
            for s in W.cut: self.cutstate(s, d)
            for s, v in self.distinct(out): nx += 1; self.exit(s, v, d)
        self.stats.append((d.handler, nx, time.time() - t))
    def distinct(self, outs):
        """exits that differ in more than the bytes consumed and what is known of them"""
        W, E = self.W, self.E; seen = []; mark = self.mark
        for st, v in outs:
            v = st.current(v) if v.__class__ is Lin else v
            if C in st.mem:
                W.anchor(st, True)
                if v.__class__ is Lin: st.g['%ret'] = v
                E.stack = []; E.F = None; st.frames = []
                gc(E, st); sh, lv = canon_shape(E, st, 0); st.g.pop('%ret', None)
                if any(x[0] == sh and E.subsumes(x[2], x[1], st, lv, mark) for x in seen): continue
                seen.append((sh, lv, st))
            yield st, v
    def users(self, st): return {o: -n for o, n in self.h0.items()}
    def closable(self, st, d):
        """can the connection be closed in this state, and is everything it holds released then?"""
        W, E = self.W, self.E; W.ob('states in which the connection may be closed')
        s = st.copy(); s.g.pop('poison', None); E.stack = []; E.F = None; s.frames = []; W.mode = 'close'
        h0 = self.h0; w = self.where
        try: r = E.run(s, self.closefn, [Ptr(C)])
        finally: W.mode = 'handler'
        for s2, v in r:
            fd = W.tpeek(st, 'fd')
            W.finish(E, s2, None, self.users(s2), what=w)
            self.descriptors(s2, d)
    def descriptors(self, st, d): pass
    def cutstate(self, st, d):
        """the next request is looked at"""
        self.next(st, d)
    def exit(self, st, v, d):
        W, E = self.W, self.E; v = st.current(v) if v.__class__ is Lin else v
        R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        close = v.__class__ is Lin and v.const and v.c == W.ec['close_connection']
        W.ob('exits of handlers')
        if 'nested' in st.g:
            if (st.g['nested'] == W.ec['close_connection']) != close: R('nested-result', ('C02', 'C22'), 'the outcome of dealing with the next request is ignored' if not close else 'the connection is closed although its next request was accepted')
            return
        if close: self.closable(st, d); return
        self.next(st, d)
    def next(self, st, d):
        W, E = self.W, self.E
        R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        if 'armfail' in st.g: R('not-armed', ('C02', 'C22'), 'the connection is kept although it can not wait for its next event')
        self.body(st, d)
        self.closable(st, d)
        x = self.describe_(st)
        if x is None: return
        x = x._replace(sent=self.respond(st, d, x))
        self.numbers(st, d, x)
        if (d.num == 'miss' or 'miss' in st.g) and not (d.sent and not x.sent): x = x._replace(num='miss')
        arm = st.g.get('armed')
        if arm is not None:
            if x.epout and not arm & 4 or x.epin and not arm & 1: R('armed', ('C02',), 'the connection does not wait for the event it is going to deal with')
        elif (x.epin, x.epout) != (d.epin, d.epout): R('armed', ('C02',), 'the event the connection waits for changes without telling the kernel')
        if not x.epin and not x.epout: R('stuck', ('C02',), 'the connection waits for no event')
        self.push(x, d)
    def describe_(self, st):
        h0 = self.h0; st.g['held0'] = None
        sv = dict(h0)
        st.g['held0'] = sv
        try: return self.describe(st)
        finally: st.g.pop('held0', None)
    def push(self, x, d):
        if x not in self.done: self.done[x] = d; self.todo.append(x)
    def initial(self, ltype):
        W, E = self.W, self.E
        d = Desc(handler='http_connection_handler', ltype=ltype, method=0, state=0, writing=0, epin=1, epout=0, out=None, sent=(), ekind=None, emode=(), eheld=0, theld=0, fd='free', pos='free', hdr=None, num=None)
        self.step(d)
    def run(self, ltype='cache_connection', limit=100000):
        self.initial(self.W.ec[ltype]); n = 0
        while self.todo and n < limit:
            d = self.todo.pop(0); n += 1; t = time.time()
            self.step(d)
            if absint_debug(): print('%5.1fs %3d exits todo %d' % (time.time() - t, self.stats[-1][1], len(self.todo)), str(d)[:330], flush=True)
    # ---- the same, with the steps spread over processes
    def one(self, d, budget):
        """what one step finds"""
        W, E = self.W, self.E
        self.todo = []; self.done = {}; W.findings = {}; W.obl.clear(); E.t0 = time.time(); E.budget = budget; n0 = len(self.stats); s0, p0 = E.steps, E.paths
        inc = None; t = time.time()
        try: self.step(d)
        except Budget as e: inc = str(e)
        except AnalysisBroken as e: inc = 'broken: ' + str(e)
        except RecursionError: inc = 'recursion limit of the analysis'
        if inc: inc = str(d)[:160] + ': ' + inc
        return dict(d=d, new=self.todo, findings=packed(W), obl=dict(W.obl), fns=list(E.fns), steps=E.steps - s0, paths=E.paths - p0, exits=sum(x[1] for x in self.stats[n0:]), inc=inc, unknown=dict(getattr(E, 'unknown', {})), wall=time.time() - t)
    def runall(self, first, total, budget, procs=8, debug=False):
        import multiprocessing as mp
        ctx = mp.get_context('fork'); qi, qo = ctx.Queue(), ctx.Queue(); t0 = time.time()
        def work():
            while True:
                d = qi.get()
                if d is None: return
                try: r = self.one(d, budget)
                except Exception:
                    import traceback
                    r = dict(d=d, new=[], findings=[], inc='error: ' + traceback.format_exc()[-600:], wall=0)
                qo.put(r)
        ps = [ctx.Process(target=work, daemon=True) for _ in range(procs)]
        for p in ps: p.start()
        seen = set(first); act = 0; out = dict(findings=[], obl={}, fns=set(), steps=0, paths=0, exits=0, unknown={}, inc=[], descs=0, parents={})
        for d in first: qi.put(d); act += 1
        self.hist = {d: None for d in first}
        try:
            while act:
                try: r = qo.get(timeout=max(1, t0 + total - time.time()))
                except Exception:
                    out['inc'].append('time limit, %d situations analysed, %d left' % (out['descs'], act)); break
                act -= 1; out['descs'] += 1
                if debug: print('%5.1fs %3d exits %d left' % (r['wall'], r.get('exits', 0), act), str(r['d'])[:330], r['inc'] or '', flush=True)
                if r['inc']: out['inc'].append(r['inc'])
                for f in r['findings']:
                    f['desc'] = str(r['d']); out['findings'].append(f)
                for k, v in r.get('obl', {}).items(): out['obl'][k] = out['obl'].get(k, 0) + v
                for k, v in r.get('unknown', {}).items(): out['unknown'][k] = out['unknown'].get(k, 0) + v
                out['fns'] |= set(r.get('fns', ()))
                for k in ('steps', 'paths', 'exits'): out[k] += r.get(k, 0)
                for x in r['new']:
                    if x not in seen: seen.add(x); self.hist[x] = r['d']; qi.put(x); act += 1
        finally:
            for p in ps: p.kill()
        return out
    def first(self, ltype):
        return Desc(handler='http_connection_handler', ltype=self.W.ec[ltype], method=0, state=0, writing=0, epin=1, epout=0, out=None, sent=(), ekind=None, emode=(), eheld=0, theld=0, fd='free', pos='free', hdr=None, num=None)
def packed(W):
    out = []
    for f in W.findings.values():
        m = re.search(r'\((\w+)', f.where or '')
        out.append(dict(rule=f.rule, props=sorted(set(f.props)), where=f.where, function=m.group(1) if m else '', msg=re.sub(r'\b[HM]:\d+:\d+|\bs\d+\b', '_', f.msg), entry=f.entry, trace=f.trace))
    return out
def absint_debug():
    import os; return os.environ.get('HDEBUG')
if __name__ == '__main__':
    import prog
    P = prog.Program('release'); t = time.time()
    S = HSuite(P); lt = sys.argv[1] if len(sys.argv) > 1 else 'cache_connection'
    r = S.runall([S.first(lt)], float(sys.argv[2]) if len(sys.argv) > 2 else 700, 200, debug=absint_debug())
    print('descs', r['descs'], 'time', time.time() - t, 'incomplete', [x[:400] for x in r['inc'][:5]])
    seen = {}
    for f in r['findings']: seen.setdefault((f['rule'], f['where'], f['msg']), []).append(f)
    for k, v in list(seen.items())[:40]: print('   (', ','.join(v[0]['props']), *k, ' | ', v[0]['entry'], len(v), '|', v[0]['desc'])
    print('unknown', r['unknown'], r['obl'])
