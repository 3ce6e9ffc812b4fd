"""The list of monitoring subscribers: every operation on it, from every list that is different for it."""
import time
from evsuite import *
import evsuite, world

class Mon(Ev):
    stable = ()
    def load(self, E, st, o, off, w, t):
        if o in self.stable: return
        super().load(E, st, o, off, w, t)
    def x_connection_register_write(self, E, st, a, I):
        o = self.live(E, st, a[0], 'connection_register_write')
        if o is None: return []
        self.Cput(st, o, 'epollout', K(1)); self.Cput(st, o, 'epollin', Z); world.ogset(st, o, reg=1)
        s2 = st.copy(); world.ogset(s2, o, reg=0)
        return [(st, K(1)), (s2, Z)]
    def x_shutdown(self, E, st, a, I):
        fd = st.current(a[0])
        for o, g in list(st.og.items()):
            if dict(g).get('k') == 'conn' and self.eqp(st, dict(g).get('fd'), fd): world.ogset(st, o, shut=1)
        return [(st, Z)]
    def x_connection_remove(self, E, st, a, I):
        self.R(E, st, 'mon-removed', ('C22', 'C23'), 'a connection is removed while events collected for it may still be dealt with'); return [(st, K(1))]
    def x_http_cleanup(self, E, st, a, I): return [(st, None)]
    def x_monitoring_check(self, E, st, a, I): return None
    def x_setsockopt(self, E, st, a, I): return [(st, Z)]

class MSuite(EvSuite):
    def __init__(self, P, budget=200):
        super().__init__(P, budget); self.W = Mon(P); self.W.suite = self; self.E = Engine(P, self.W, budget); self.E.models = dict(libc.MODELS); self.E.unroll = 3000
        W = self.W; r = P.records['scache_connection']
        self.mf = self.fields(('prev', 'next', 'scheduled', 'current'))
        self.W.stable = {('G', g) for g in P.globals if g.endswith('current_time')}
        if not self.W.stable: raise AnalysisBroken('anchor: current_time')
        self.now = next(iter(self.W.stable)); self.tf = {n: P.field('timeval', n) for n in ('tv_sec', 'tv_usec')}
        self.lists = [g for g, d in P.globals.items() if d['t'] == 'p:r:scache_connection']
        self.roles = None
    def fields(self, names):
        """the fields of the part of a connection that links subscribers"""
        P = self.P; out = {}
        def look(rec, base, depth):
            for f in P.records[rec].get('fields', []):
                if f['n'] in names and f['n'] not in out: out[f['n']] = dict(f, o=base + f['o'])
                elif f['t'].startswith('r:') and depth < 4 and P.records.get(f['t'][2:], {}).get('fields'): look(f['t'][2:], base + f['o'], depth + 1)
        best = None
        for rec, d in P.records.items():
            fs = {f['n'] for f in d.get('fields', [])}
            if set(names) <= fs:
                # where it lies in a connection
                def find(r, base):
                    for f in P.records[r].get('fields', []):
                        if f['t'] == 'r:' + rec: return base + f['o']
                        if f['t'].startswith('r:') and P.records.get(f['t'][2:], {}).get('fields'):
                            x = find(f['t'][2:], base + f['o'])
                            if x is not None: return x
                b = 0 if rec == 'scache_connection' else find('scache_connection', 0)
                if b is not None: best = {f['n']: dict(f, o=b + f['o'], w=P.sizeof(f['t']) * 8) for f in d['fields'] if f['n'] in names}
        if best is None:
            best = {}; look('scache_connection', 0, 0)
            if set(best) != set(names): raise AnalysisBroken('anchor: the links of monitoring connections')
            for f in best.values(): f['w'] = P.sizeof(f['t']) * 8
        return best
    def mput(self, st, o, n, v): f = self.mf[n]; st.cells(o)[(f['o'], f['w'])] = v
    def mget(self, st, o, n):
        f = self.mf[n]; v = self.E.load(st, (o, Z, f['o'], f['w']), f['t']); return st.current(v) if v.__class__ is Lin else v
    def sched(self, st, o, v=None):
        f = self.mf['scheduled']; k = [(f['o'] + self.tf[n]['o'], 64) for n in ('tv_sec', 'tv_usec')]
        if v is not None:
            for a, b in zip(k, v): st.cells(o)[a] = b
        else: return tuple(st.current(self.E.load(st, (o, Z, a, 64), 'i64')) for a, _ in k)
    def start(self):
        st = State(); st.frames = []
        s, u = fresh(1 << 20, 1 << 40, 'now'), fresh(0, 999999, 'now, microseconds')
        for n, v in (('tv_sec', s), ('tv_usec', u)): st.cells(self.now)[(self.tf[n]['o'], 64)] = v
        self.t = (s, u)
        for g in self.lists: st.cells(('G', g))[(0, 64)] = Z
        return st
    def subscriber(self, st, out=False, writing=1):
        W = self.W; o = W.conn(self.E, st, W.ec['mon_connection'], (1, 0), out); W.Cput(st, o, 'is_writing', K(writing))
        return o
    def link(self, st, cs):
        for i, o in enumerate(cs):
            self.mput(st, o, 'prev', Ptr(cs[i - 1]) if i else Z); self.mput(st, o, 'next', Ptr(cs[i + 1]) if i + 1 < len(cs) else Z)
        for g, v in zip(self.roles, (Ptr(cs[0]), Ptr(cs[-1])) if cs else (Z, Z)): st.cells(('G', g))[(0, 64)] = v
    def order(self, st):
        """the list from its head, or None if it is not well formed"""
        g = [st.mem.get(('G', r), {}).get((0, 64), Z) for r in self.roles]; out = []; p = Z; x = g[0]
        while x.__class__ is Ptr:
            if x.o in out or len(out) > 9 or self.mget(st, x.o, 'prev') != p: return None
            out.append(x.o); p = x; x = self.mget(st, x.o, 'next')
        return out if x == Z and g[1] == p else None
    def others(self, st, R):
        for g in self.lists:
            if g not in self.roles and st.mem.get(('G', g), {}).get((0, 64), Z) != Z: R('other-list', ('C23', 'C22'), 'a subscriber is put on another list as well')
    def run(self):
        W, E, P = self.W, self.E, self.P; add, rem, chk = (self.key(k) for k in ('monitoring_add', 'monitoring_destroy', 'monitoring_check'))
        # which globals hold the two ends
        st = self.start(); xs = [self.subscriber(st, writing=0) for _ in range(2)]
        sts = [st]
        for x in xs: sts = [s for t in sts for s, v in self.go(t, add, [Ptr(x)], 'roles')]
        for s in sts:
            ps = {g: v.o for g in self.lists for v in [s.mem.get(('G', g), {}).get((0, 64), Z)] if v.__class__ is Ptr}
            h = [g for g, o in ps.items() if self.mget(s, o, 'prev') == Z and self.mget(s, o, 'next') != Z]; t = [g for g, o in ps.items() if self.mget(s, o, 'next') == Z and g not in h]
            if len(h) == 1 and len(t) == 1: self.roles = (h[0], t[0])
        W.findings.clear(); self.stats.clear()
        cands = [self.roles] if self.roles else [(a, b) for a in self.lists for b in self.lists if a != b]
        best = None
        for r in cands:
            self.roles = r; W.findings.clear(); self.operations(add, rem, chk)
            if best is None or len(W.findings) < len(best): best = dict(W.findings)
        W.findings.clear(); W.findings.update(best)
    def operations(self, add, rem, chk):
        W, E = self.W, self.E
        for n in range(0, 4):
            st = self.start(); cs = [self.subscriber(st) for _ in range(n)]; self.link(st, cs); x = self.subscriber(st, writing=0)
            for s, v in self.go(st, add, [Ptr(x)], 'a new subscriber, %d others' % n):
                R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=self.where); W.ob('operations on the list of subscribers')
                L = self.order(s)
                if L is None: R('mon-list', ('C23', 'C22'), 'the list of subscribers is left inconsistent'); continue
                if sorted(map(str, L)) != sorted(map(str, cs + [x])): R('mon-list', ('C23', 'C22'), 'a new subscriber is not put on the list, or another one is lost'); continue
                if [o for o in L if o != x] != cs: R('mon-order', ('C23',), 'a new subscriber changes the order of the others')
                sc = self.sched(s, x); now = tuple(s.current(v) for v in self.t)
                if L[0] == x:
                    if not (sc[0].__class__ is Lin and s.prove(sc[0].sub(now[0])) and (W.eqp(s, sc[1], now[1]) or s.prove(sc[0].sub(now[0]).plus(1)))): R('mon-order', ('C23',), 'a subscriber that is not due yet is put in front of the others')
                elif L[-1] == x and n and not s.prove(now[0].sub(sc[0])): R('mon-order', ('C23',), 'a subscriber is put behind the others although it may be due before them')
                if not W.eqp(s, self.mget(s, x, 'current'), Z): R('mon-start', ('C23',), 'the numbers sent to a subscriber do not start from 0')
                if len(L) > 2 and L[0] != x and L[-1] != x: R('mon-order', ('C23',), 'a new subscriber is put between others')
                self.others(s, R)
        for n in range(1, 5):
            for i in range(n):
                st = self.start(); cs = [self.subscriber(st) for _ in range(n)]; self.link(st, cs); x = cs[i]
                for s, v in self.go(st, rem, [Ptr(x)], 'subscriber %d of %d ends' % (i + 1, n)):
                    R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=self.where); W.ob('operations on the list of subscribers')
                    L = self.order(s)
                    if L is None or L != [o for o in cs if o != x]: R('mon-list', ('C23', 'C22'), 'a subscriber that ended is not taken off the list, or another one is lost' if L is not None else 'the list of subscribers is left inconsistent')
                    if any(W.mget if False else s.mem.get(('G', g), {}).get((0, 64), Z) == Ptr(x) for g in self.lists): R('mon-dangling', ('C22', 'C23'), 'a connection that ended can still be reached from a list')
        for n in range(0, 3):
            st = self.start(); cs = [self.subscriber(st) for _ in range(n)]; self.link(st, cs); x = self.subscriber(st, writing=0); self.mput(st, x, 'prev', Z); self.mput(st, x, 'next', Z)
            for s, v in self.go(st, rem, [Ptr(x)], 'a connection ends that is no subscriber yet, %d subscribers' % n):
                R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=self.where); W.ob('operations on the list of subscribers')
                if self.order(s) != cs: R('mon-list', ('C23', 'C22'), 'the end of a connection that is no subscriber changes the list of subscribers')
        self.intervals = {}
        for n in range(0, 4):
            for due in range(0, n + 1):
                for pend in ([0] * n, [1] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1]) if n else ([],):
                    for edge in (0, 1):
                        self.check(chk, n, due, list(pend)[:n], edge)
        if len(self.intervals) > 1: W.report(E, State(), 'mon-interval', ('C23',), 'subscribers are not all scheduled the same time ahead', where=self.where)
    def check(self, chk, n, due, pend, edge):
        W, E = self.W, self.E; st = self.start(); cs = [self.subscriber(st, out=bool(p)) for p in pend]; self.link(st, cs); now = self.t; cur = []
        for i, o in enumerate(cs):
            if i < due:
                a = (now[0].plus(-(due - i)), fresh(0, 999999, 'due')) if not edge else (now[0], now[1])
            else: a = (now[0].plus(i - due + 1), fresh(0, 999999, 'due')) if not edge else (now[0], now[1].plus(1 + i - due))
            self.sched(st, o, a); c = fresh(0, 65535, 'number'); self.mput(st, o, 'current', c); cur.append(c)
        before = [self.sched(st, o) for o in cs]
        obuf = [(W.C(E, st, o, 'output_buffer'), W.C(E, st, o, 'output_length')) for o in cs]
        for s, v in self.go(st, chk, [], '%d subscribers, %d due%s%s' % (n, due, ', exactly now' if edge else '', ', output pending: ' + ''.join(map(str, pend)) if any(pend) else '')):
            R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=self.where); W.ob('rounds of monitoring')
            if any(o not in s.info or s.info[o].status == 'freed' for o in cs): R('mon-freed', ('C22', 'C23'), 'a connection is freed while events collected for it may still be dealt with'); continue
            L = self.order(s)
            if L is None: R('mon-list', ('C23', 'C22'), 'the list of subscribers is left inconsistent'); continue
            if sorted(map(str, L)) != sorted(map(str, cs)): R('mon-list', ('C23', 'C22'), 'a subscriber is lost from the list'); continue
            if L != cs[due:] + cs[:due]: R('mon-order', ('C23',), 'the list of subscribers is not left in the order in which they are due')
            for i, o in enumerate(cs):
                d = world.og(s, o); sc = self.sched(s, o); c = self.mget(s, o, 'current'); ob, ol = W.C(E, s, o, 'output_buffer'), W.C(E, s, o, 'output_length'); t0 = tuple(s.current(x) for x in now)
                W.ob('subscribers in a round of monitoring')
                if i >= due:
                    if not all(W.eqp(s, a, s.current(b)) for a, b in zip(sc, before[i])) or not W.eqp(s, c, s.current(cur[i])) or (ob, ol) != obuf[i] or d.get('reg') is not None: R('mon-early', ('C23',), 'a subscriber is served before it is due')
                    continue
                k = sc[0].sub(t0[0])
                if not k.const or k.c <= 0 or not W.eqp(s, sc[1], t0[1]): R('mon-interval', ('C23',), 'a subscriber that was due is not scheduled a fixed time ahead')
                else: self.intervals[k.c] = 1
                if pend[i]:
                    if not d.get('shut'): R('mon-stalled', ('C23', 'C22'), 'a subscriber that has not taken the previous number is not disconnected')
                    if (ob, ol) != obuf[i]: R('mon-overrun', ('C23', 'C01'), 'what a subscriber has not taken yet is replaced')
                    continue
                nx = s.current(cur[i]).plus(1)
                if not (W.eqp(s, c, nx) or any(W.eqp(s, c, nx.plus(j)) for j in (-65536,)) or c.one() and sid(c) in DEFS and DEFS[sid(c)][0] == 'wrap' and W.eqp(s, s.current(DEFS[sid(c)][1][2]), nx)): R('mon-number', ('C23',), 'the next number of a subscriber is not one more than the last')
                if not (ob.__class__ is Ptr and ob.o[0] == 'G'): R('mon-text', ('C23',), 'a due subscriber is sent nothing')
                else:
                    w = self.rowsize(ob.o)
                    if w is None or not W.eqp(s, s.current(ob.f), s.current(cur[i]).mul(w)): R('mon-text', ('C23',), 'what a subscriber is sent is not the text of its number')
                    if not self.isrow(s, ol, cur[i]): R('mon-text', ('C23', 'C17'), 'the length of what a subscriber is sent is not that of its number')
                if d.get('reg') is None: R('mon-unsent', ('C23', 'C02'), 'a number is prepared for a subscriber but not sent')
                if d.get('reg') == 0 and not d.get('shut'): R('mon-stuck', ('C23', 'C22'), 'a subscriber that can not be sent anything is kept')
                if d.get('reg') == 1 and d.get('shut'): R('mon-dropped', ('C23',), 'a subscriber that takes its numbers is disconnected')
            self.others(s, R)
    def rowsize(self, o):
        t = self.P.globals.get(o[1], {}).get('t', ''); import re
        n = self.P.sizeof(t); return n // 65536 if n and n % 65536 == 0 else None
    def isrow(self, st, l, cur):
        """a cell of a table of lengths at the same index"""
        for o, c in st.mem.items():
            if o[0] != 'G': continue
            for k, v in c.items():
                if k[0] == 's' and v.__class__ is Lin and self.W.eqp(st, v, l):
                    w = self.rowsize(o)
                    if w and self.W.eqp(st, st.current(k[1]), st.current(cur).mul(w)): return True
        return False

def run(P):
    S = MSuite(P); S.run(); return S
if __name__ == '__main__':
    import prog, sys
    t = time.time(); S = run(prog.Program('release')); print(len(S.stats), time.time() - t, S.roles)
    seen = set()
    for f in S.W.findings.values():
        if (f.rule, f.where, f.msg) in seen: continue
        seen.add((f.rule, f.where, f.msg)); print(f.props, f.text()[:500])
    print(S.W.obl, getattr(S.E, 'unknown', {}))
