"""Analysis of the operations of db.h one by one: each is interpreted from every admissible abstract
pre-state, and what it leaves behind is checked against the class invariants and its contract."""
from world import *
import libc

class DB(World):
    def __init__(self, P):
        super().__init__(P); self.event_on = True
        cands = [k for k, v in P.globals.items() if k.endswith('current_time') and v['t'].startswith('r:timeval')]
        if not cands: raise AnalysisBroken('anchor: global current_time')
        self.nowo = ('G', cands[0]); f = P.field('timeval', 'tv_sec'); self.nowk = (f['o'], f['w'])
        self.settings = ('G', next(k for k, v in P.globals.items() if v['t'] == 'r:scache_settings'))
    def call(self, E, st, name, args, I):
        if name in ('db_lru_gc',) and E.stack and not self.gc_root: return [(st, None)]     # analysed on its own
        return super().call(E, st, name, args, I)
    gc_root = False; settles = False
    def materialise(self, E, st, o, off, w, t):
        if o == self.nowo and off == self.nowk[0]: return fresh(1, 1 << 39, 'now')
        r = super().materialise(E, st, o, off, w, t)
        if r is None and o == self.G and off.__class__ is int:
            n = self.off.get(('D', off))
            if n in ('free_blocks', 'blocks_free'): raise AnalysisBroken('free list not set up')
        if r is None and st.og.get(o) and off.__class__ is int:
            d = dict(st.og[o])
            if d.get('k') == 'N':
                if off == self.nf['block_number']['o']:
                    b = fresh(0, (1 << 31) - 2, 'free block'); st.add_le(b.plus(1).sub(self.D(E, st, 'blocks_exist'))); return st.current(b)
        return r

    def start(self, E):
        """initial states: with and without free blocks"""
        out = []
        for free in (0, 1):
            st = State(); st.frames = []
            ex = self.D(E, st, 'blocks_exist'); self.D(E, st, 'fd_blockfile')
            self.set_free(E, st, free)
            out.append((st, 'free blocks' if free else 'no free block'))
        return out
    def set_free(self, E, st, free):
        ex = self.D(E, st, 'blocks_exist')
        if free:
            n = self.mobj(st, 'free block', 'block_free_node', self.size['N']); ogset(st, n, k='N')
            nf = fresh(1, (1 << 31) - 1, 'blocks_free'); st.add_le(nf.sub(ex))
            self.put(st, self.G, self.df, 'free_blocks', Ptr(n)); self.put(st, self.G, self.df, 'blocks_free', st.current(nf))
            b0 = self.get(E, st, n, self.nf, 'block_number'); nx = self.get(E, st, n, self.nf, 'next')
            st.g['blk'] = (st.current(ex), st.current(nf), Ptr(n), b0, nx)
        else:
            self.put(st, self.G, self.df, 'free_blocks', Z); self.put(st, self.G, self.df, 'blocks_free', Z)
            st.g['blk'] = (st.current(ex), Z, Z, None, None)

    # ---- at the end of an operation
    def finish(self, E, st, ret, users, hit=None, what=''):
        self.ob('exits checked')
        self.settle(E, st, hit)
        R = lambda rule, props, msg: self.report(E, st, rule, props, msg, where=what)
        for o, g in list(st.og.items()):
            d = dict(g)
            if d.get('k') == 'T': self.end_table(E, st, o, d, users, R)
            elif d.get('k') == 'E': self.end_entry(E, st, o, d, users, R)
        e = st.current(st.g.get('err:size') or Z)
        self.ob('size and key accounts')
        if e != Z and not (st.prove(e) and st.prove(e.mul(-1))): R('size-account', ('C08', 'C10'), 'the database size is off by %s' % self.show(e))
        e = st.current(st.g.get('err:keys') or Z)
        if e != Z and not (st.prove(e) and st.prove(e.mul(-1))): R('key-account', ('C08',), 'the number of keys is off by %s' % self.show(e))
        self.end_blocks(E, st, R)
        self.end_memory(E, st, ret, R)
    def show(self, e):
        if e.const: return str(e.c)
        return 'a quantity (' + '+'.join('%s%s' % ('' if k == 1 else '%d*' % k, SYM[s][2] or 's%d' % s) for s, k in e.t) + ('%+d' % e.c if e.c else '') + ')'
    def inmap(self, st, o):
        """hash tables in which o is found"""
        return [m for m, v in st.maps.items() if (st.info.get(m) is None or st.info[m].status != 'freed') for s in v[1:] if s[0] == 'in' and s[3].__class__ is Ptr and s[3].o == o]
    def eqp(self, st, a, b):
        d = st.current(a).sub(st.current(b))
        return d == Z or (st.prove(d) and st.prove(d.mul(-1)))
    def end_table(self, E, st, o, d, users, R):
        n = st.current(d['o']).plus(users.get(o, 0)); self.ob('table reference balances')
        if st.info[o].status == 'freed':
            if self.inmap(st, o): R('dangling-table', ('C06', 'C05'), 'a table is freed while it is still found under its name')
            if not (st.prove(n)): R('early-free', ('C06',), 'a table is freed while it is still in use')
            k = self.peek(st, o, self.tf, 'key')
            if k is not None and k.__class__ is Ptr and st.info[k.o].status != 'freed' and k.o not in self.reach(E, st, None): R('leak', ('C06', 'C26'), 'the name of a freed table is not freed')
            m = self.peek(st, o, self.tf, 'cache_hash_set')
            if m is not None and m.__class__ is Ptr and st.info[m.o].status != 'freed': R('leak', ('C06', 'C26'), 'the key table of a freed table is not freed')
            return
        de = self.peek(st, o, self.tf, 'deleted'); de = st.current(de) if de is not None else None
        if de is None or not de.const: R('table-flag', ('C05',), 'whether a table is removed is not determined'); return
        im = self.inmap(st, o)
        if de.c and im: R('removed-findable', ('C05', 'C04'), 'a removed table is still found under its name')
        if not de.c and not im and not (d['o'] == Z and 'own0' in d and False): R('lost-table', ('C05', 'C06'), 'a table that is not removed can not be found any more')
        ms = self.peek(st, o, self.tf, 'cache_hash_set')
        if ms is None or ms.__class__ is not Ptr or ms.o not in st.maps: R('table-keys', ('C06',), 'a table has no key table'); return
        if st.info[ms.o].status == 'freed': R('dangling-keys', ('C06',), 'the key table of a live table was freed'); return
        sz = st.current(self.get(E, st, ms.o, self.hf, 'size'))
        for s, own in self.split(st, sz):
            if own and self.emptied(E, s, ms.o): continue
            refs = s.current(self.get(E, s, o, self.tf, 'refs'))
            if de.c:
                if own: R('removed-with-keys', ('C05',), 'a removed table still holds keys'); continue
                want = s.current(n)
            else: want = s.current(n).plus(1 if own else 0)
            if not self.eqp(s, refs, want): R('table-refs', ('C06', 'C05'), 'the reference count of a table %s is off by %s' % ('that was removed' if de.c else 'with keys' if own else 'without keys', self.show(refs.sub(want))))
            elif s.hi(refs) <= 0: R('zombie-table', ('C06', 'C05'), 'a table nobody uses and that holds no key is not freed')
            elif s.lo(refs) <= 0:
                t = s.copy()
                if t.add_eq(refs): R('zombie-table', ('C06', 'C05'), 'a table nobody uses and that holds no key is not freed')
    def split(self, st, sz):
        out = []
        a = st.copy()
        if a.add_eq(sz) if not sz.const else sz.c == 0: out.append((a, 0))
        a = st.copy()
        if a.add_le(K(1).sub(sz)): out.append((a, 1))
        return out
    def end_entry(self, E, st, o, d, users, R):
        n = st.current(d['o']).plus(users.get(o, 0)); self.ob('entry reference balances')
        freed = st.info[o].status == 'freed'
        de = self.flag(st, o, 'deleted'); im = self.inmap(st, o)
        was_live = d['mode'] in ('complete', 'writing')
        if freed:
            if im: R('dangling-entry', ('C06', 'C05'), 'an entry is freed while it is still found under its key')
            if not st.prove(n): R('early-free', ('C06',), 'an entry is freed while it is still in use')
            if de != 1 and d['mode'] != 'new': R('free-live', ('C05', 'C06'), 'an entry is freed without having been removed')
            k = self.peek(st, o, self.ef, 'key')
            if k is not None and k.__class__ is Ptr and st.info[k.o].status != 'freed' and k.o not in self.reach(E, st, None): R('leak', ('C06', 'C26'), 'the key of a freed entry is not freed')
        else:
            if de is None: R('entry-flag', ('C05',), 'whether an entry is removed is not determined'); return
            if de and im: R('removed-findable', ('C05', 'C04'), 'a removed entry is still found under its key')
            if not de and not im: R('lost-entry', ('C05', 'C08'), 'an entry that is not removed can not be found any more')
            refs = st.current(self.get(E, st, o, self.ef, 'refs'))
            if not self.eqp(st, refs, n): R('entry-refs', ('C06', 'C05'), 'the reference count of an entry is off by %s' % self.show(refs.sub(n)))
            elif de:
                t = st.copy()
                if t.add_eq(refs): R('zombie-entry', ('C06', 'C07'), 'a removed entry nobody uses is not freed')
        if was_live and (freed or de):
            self.ob('removals')
            # its file goes with it
            s = st.copy()
            if s.add_le(K(self.BL + 1).sub(s.current(d['dl0']))) and d.get('path') is not None:
                dl = self.peek(s, o, self.ef, 'data_length')
                path = self.cur(s, d['path'])
                if not any(e[0] == 'unlink' and self.cur(s, e[1]) == path for e in s.g.get('ev') or ()):
                    if not self.redeclared(s, o): R('file-kept', ('C05',), 'an entry is removed but its data file is not unlinked')
        # no file of a live entry is unlinked
        if not freed and not de and d.get('path') is not None and was_live and not self.redeclared(st, o):
            path = self.cur(st, d['path'])
            if any(e[0] == 'unlink' and self.cur(st, e[1]) == path for e in st.g.get('ev') or ()): R('file-lost', ('C05', 'C03'), 'the data file of an entry that is not removed is unlinked')
    def redeclared(self, st, o): return False
    def cur(self, st, d):
        if d.__class__ is Lin: return st.current(d)
        if d.__class__ is tuple: return tuple(self.cur(st, x) for x in d)
        return d

    # ---- blocks
    may_swap = False   # set where an upload may change its own storage
    def end_blocks(self, E, st, R, reset=False):
        if st.g.get('blk') is None: return
        ex0, nf0, h0, b0, nx0 = st.g['blk']
        self.ob('block accounts')
        p = self.peek(st, self.G, self.df, 'free_blocks'); added = []; removed = 0; n = 0
        while n < 50:
            n += 1
            if p.__class__ is Lin: p = st.current(p)
            if p == h0 or self.same(st, p, h0) is True: break
            if nx0 is not None and self.same(st, p, nx0) is True: removed = 1; break
            if p.__class__ is Ptr and p.o[0] == 'H':
                if st.info[p.o].status == 'freed': R('free-list', ('C07',), 'the free list holds a node that was freed'); return
                v = self.peek(st, p.o, self.nf, 'block_number'); nx = self.peek(st, p.o, self.nf, 'next')
                if v is None or nx is None: R('free-list', ('C07',), 'a node of the free list is not filled in'); return
                added.append(st.current(v)); p = nx; continue
            R('free-list', ('C07',), 'the list of free blocks is cut or leads elsewhere'); return
        ex = st.current(self.D(E, st, 'blocks_exist')); nf = st.current(self.D(E, st, 'blocks_free'))
        if not removed and h0.__class__ is Ptr and st.info[h0.o].status == 'freed': R('free-list', ('C07',), 'a node that is still on the free list was freed'); return
        if not self.eqp(st, nf, st.current(nf0).plus(len(added) - removed)):
            R('free-count', ('C07',), 'the number of free blocks is off by %s' % self.show(nf.sub(st.current(nf0)).plus(removed - len(added))))
        dex = st.current(ex).sub(st.current(ex0))
        if not dex.const or dex.c not in (-1, 0, 1): R('block-file', ('C07',), 'the number of blocks changes by %s' % self.show(dex)); return
        if dex.c:
            fd = st.current(self.D(E, st, 'fd_blockfile')); tr = [e for e in st.g.get('ev') or () if e[0] in ('ftruncate', 'ftruncate!')]
            if not any(st.current(e[1]) == fd and st.current(e[2]) == ex.mul(self.BL) for e in tr):
                R('block-file', ('C07',), 'the number of blocks changes but the block file does not get the length of %s blocks' % ('one more' if dex.c > 0 else 'one less'))
        ents = [(o, dict(g)) for o, g in st.og.items() if dict(g).get('k') == 'E']
        cases = [(st, [], [])]
        for o, d in ents:
            freed = st.info[o].status == 'freed'
            b1 = self.peek(st, o, self.ef, 'block'); l1 = self.peek(st, o, self.ef, 'data_length')
            if not freed and d['mode'] != 'new' and b1 == d['b0'] and l1 == d['dl0']: continue
            nc = []
            for s, S0, S1 in cases:
                for s2, own0 in self.owns(s, d['b0'], d['dl0']) if d['mode'] != 'new' else [(s, False)]:
                    for s3, own1 in (self.owns(s2, b1, l1) if not freed else [(s2, False)]):
                        if own0 and not freed and not self.may_swap and not (own1 and self.eqp(s3, s3.current(d['b0']), s3.current(b1))):
                            R('block-early', ('C07',), 'an entry that is not freed yet, its users may still read or write the block, gives up its block')
                        nc.append((s3, S0 + ([d['b0']] if own0 else []), S1 + ([b1] if own1 else [])))
            cases = nc
        for s, S0, S1 in cases:
            S0 = [s.current(x) for x in S0] + ([s.current(b0)] if removed else []) + ([s.current(ex0)] if dex.c == 1 else [])
            S1 = [s.current(x) for x in S1] + [s.current(x) for x in added] + ([s.current(ex0).plus(-1)] if dex.c == -1 else [])
            rest = list(S1); lost = []
            for x in S0:
                y = next((y for y in rest if self.eqp(s, x, y)), None)
                if y is None: lost.append(x)
                else: rest.remove(y)
            if rest: R('block-shared', ('C07',), 'a block is %s that was not %s' % ('put on the free list or given to an entry', 'taken from its owner first')); break
            if lost: R('block-lost', ('C07',), 'a block is taken from the free list, from an entry or from the end of the file and belongs to nobody afterwards'); break
        if reset:
            pass
    def owns(self, st, b, l):
        """an entry owns a block when it is not stored in a file and has one"""
        out = []
        if b is None or l is None: return [(st, False)]
        b, l = st.current(b), st.current(l)
        s = st.copy()
        if s.add_le(l.plus(-self.BL)) and s.add_le(s.current(b).mul(-1)): out.append((s, True))
        s = st.copy()
        if s.add_le(l.plus(-self.BL)) and s.add_le(s.current(b).plus(1)): out.append((s, False))
        s = st.copy()
        if s.add_le(K(self.BL + 1).sub(l)): out.append((s, False))
        return out

    # ---- memory
    def reach(self, E, st, ret):
        seen = set(); todo = []
        def val(v):
            if v.__class__ is Lin: v2 = st.current(v) if v.t else v
            else: v2 = v
            if v2.__class__ is Ptr: todo.append(v2.o)
            elif v2.__class__ is Lin and v2.one(): todo.append(('*', sid(v2)))
            elif v2.__class__ is tuple:
                for x in v2: val(x)
        if ret is not None: val(ret)
        for o in st.mem:
            if o[0] in 'GL' or (o in st.info and st.info[o].kind == 'ext'): todo.append(o)
        for k in self.keep_roots(st): todo.append(k)
        while todo:
            o = todo.pop()
            if o in seen: continue
            seen.add(o)
            i = st.info.get(o)
            if i is not None and i.status == 'freed': continue
            for v in st.mem.get(o, {}).values(): val(v)
            if o[0] in ('V', 'KK'): todo.append(o[1])
            for s in st.maps.get(o, ())[1:]:
                if s[0] == 'in' and s[3] is not None: val(s[3])
            d = dict(st.og.get(o, ()))
            if d.get('k') == 'E':
                pass
        return seen
    def keep_roots(self, st):
        """objects still used by others"""
        return [o for o, g in st.og.items() if dict(g).get('k') in ('E', 'T') and st.info.get(o) is not None and st.info[o].status != 'freed'] + [dict(g)['e'].o for g in st.og.values() if dict(g).get('k') == 'Nb']
    def end_memory(self, E, st, ret, R):
        seen = self.reach(E, st, ret); self.ob('heap checks')
        for o in seen:
            i = st.info.get(o)
            if i is not None and i.status == 'freed':
                k = dict(st.og.get(o, ())).get('k')
                src = self.holders(st, o, seen)
                if src: R('dangling', ('C06', 'C05') if k in ('E', 'T') else ('C06',), 'a pointer to freed memory (%s) is kept in %s' % (i.site or k, src))
        for o, i in st.info.items():
            if o[0] in 'HM' and i.status == 'live' and o not in seen and dict(st.og.get(o, ())).get('k') not in ('N',):
                k = dict(st.og.get(o, ())).get('k')
                if o[0] == 'M' and k == 'key':
                    of = dict(st.og[o])['of'].o
                    if of in st.info and st.info[of].status != 'freed' : continue
                R('leak', ('C06', 'C26'), 'memory allocated as %s is neither freed nor kept' % (i.site,))
    def holders(self, st, o, seen):
        for x in seen:
            i = st.info.get(x)
            if i is not None and i.status == 'freed': continue
            if x[0] == 'L' and x[2] == '$key': continue
            for k, v in st.mem.get(x, {}).items():
                if v.__class__ is Lin and v.t: v = st.current(v)
                if v.__class__ is Ptr and v.o == o:
                    d = dict(st.og.get(x, ())).get('k')
                    if d == 'E' and k[0] == self.ef['table']['o']: continue       # a removed entry does not look at its table
                    return d and {'E': 'an entry', 'T': 'a table', 'Nb': 'a neighbour in the recency list'}.get(d, d) or oname(x)
            for s in st.maps.get(x, ())[1:]:
                if s[0] == 'in' and s[3].__class__ is Ptr and s[3].o == o: return 'a hash table'
        return None
    def eq_known(self, st, a, b, n):
        """do the branches taken establish that n bytes at a and b are equal?"""
        n = st.current(n)
        if n == Z: return True
        for x, y, k, r in st.g.get('eq') or ():
            if r == 1 and {self.pobj(st, x), self.pobj(st, y)} == {self.pobj(st, a), self.pobj(st, b)} and k.__class__ is Lin and self.eqp(st, k, n): return True
        return False

    # ---- loop heads: entries and tables that are dealt with are forgotten
    def fold(self, E, st):
        roots = set(); todo = []
        def val(v):
            if v.__class__ is Lin: v = st.current(v) if v.t else v
            if v.__class__ is Ptr: todo.append(v.o)
            elif v.__class__ is Lin and v.one() and ('*', v.t[0][0]) in st.info: todo.append(('*', v.t[0][0]))
            elif v.__class__ is tuple:
                for x in v: val(x)
        for f in st.frames:
            for v in f.values(): val(v)
        for o in st.mem:
            if o[0] in 'GL': todo.append(o)
        for o in self.pinned: todo.append(o)
        while todo:
            o = todo.pop()
            if o in roots: continue
            roots.add(o)
            i = st.info.get(o)
            if i is not None and i.status == 'freed': continue
            for k, v in st.mem.get(o, {}).items(): val(v)
            if o[0] == 'V': todo.append(o[1])
        self.settle_dead(E, st, roots)
        gone = []
        for m, v in list(st.maps.items()):
            if m not in st.info or st.info[m].status == 'freed': continue
            out = [v[0]]; syms = None
            for s in v[1:]:
                if s[0] == 'no': continue
                if s[0] == 'out':
                    if syms is None: syms = {q for f in st.frames for x in f.values() if x.__class__ is Lin for q, _ in x.t}
                    if not any(q in syms for q, _ in st.current(s[1]).t): continue
                    out.append(s); continue
                if s[3].__class__ is Ptr and s[3].o in roots: out.append(s); continue
                if s[3] is None or not self.clean(E, st, s[3].o): out.append(s); continue
                gone.append(s[3].o)
            st.maps[m] = tuple(out)
        for o in gone: self.forget(E, st, o)
        st.g.pop('eq', None)
        if self.gc_root: self.deepfold(E, st)
        for o in [o for o in st.mem if o[0] == 'G' and o[1] in ('g:errno', 'g:stderr', 'g:stdout')]: st.mem.pop(o)
        ev = st.g.get('ev')
        if ev: st.g['ev'] = tuple(e for e in ev if e[0] != 'unmapped')
    pinned = ()
    def merge_returns(self, E, F): return self.gc_root and len(F.heads) > 0
    # ---- the clean-up: every iteration starts from the class invariants alone
    def deepfold(self, E, st):
        if any(dict(g).get('k') == 'E' for o, g in st.og.items() if o in st.info): return      # an entry is being dealt with
        self.settle(E, st)
        W = E.where()
        self.end_blocks(E, st, lambda rule, props, msg: self.report(E, st, rule, props, msg, where=W)); self.reset_blocks(E, st)
        for k in ('err:size', 'err:keys'):
            v = st.current(st.g.get(k) or Z)
            if v == Z or st.prove(v) and st.prove(v.mul(-1)): st.g.pop(k, None)
        for k in [k for k in st.g if k.startswith('err:db_stats')]: st.g.pop(k)
        st.g['ev'] = ()
        c = st.cells(self.G)
        for n in ACC:
            if n != 'db_size_bytes': c.pop((self.df[n]['o'], self.df[n]['w']), None)
        for o, g in list(st.og.items()):
            d = dict(g)
            if d.get('k') != 'T' or o not in st.info or st.info[o].status == 'freed': continue
            ms = self.peek(st, o, self.tf, 'cache_hash_set')
            if ms is None or ms.o not in st.maps or len(st.maps[ms.o]) > 1: continue
            de = self.peek(st, o, self.tf, 'deleted')
            if de is None or st.current(de) != Z: continue
            sz = st.current(self.get(E, st, ms.o, self.hf, 'size')); refs = st.current(self.get(E, st, o, self.tf, 'refs'))
            own = 1 if st.lo(sz) >= 1 else 0 if st.hi(sz) <= 0 else None
            if own is None or not self.eqp(st, refs, st.current(d['o']).plus(own)): continue
            n = fresh(0 if own else 1, NUSERS, 'users of table'); ogset(st, o, o=n, own0=own)
            self.put(st, o, self.tf, 'refs', n.plus(own))
            nb = self.get(E, st, ms.o, self.hf, 'n_buckets')
            z = fresh(1, 1 << 30, 'keys in table') if own else Z
            self.put(st, ms.o, self.hf, 'size', z); st.maps[ms.o] = ('any',) if own else ('empty',)
            if own: st.add_le(z.sub(st.current(nb)))
            for k in ((1 << 22, 64), ((1 << 22) + 64, 64), (self.hf['vals']['o'], 64), (self.hf['keys']['o'], 64)): st.cells(ms.o).pop(k, None)
        m = self.peek(st, self.G, self.df, 'tables')
        if m is not None:
            for k in ((1 << 22, 64), ((1 << 22) + 64, 64), (self.hf['vals']['o'], 64), (self.hf['keys']['o'], 64)): st.cells(m.o).pop(k, None)
            nin = sum(1 for s in self.slots(st, m.o) if s[0] == 'in'); z = fresh(nin, 1 << 31, 'size'); self.put(st, m.o, self.hf, 'size', z)
            st.add_le(z.sub(st.current(self.get(E, st, m.o, self.hf, 'n_buckets'))))
    def settle_dead(self, E, st, roots):
        """removed entries and tables nothing refers to any more are checked now and forgotten"""
        ents = [(o, dict(g)) for o, g in st.og.items() if dict(g).get('k') in ('E', 'T') and o not in roots]
        if not ents: return
        dead = []
        for o, d in ents:
            freed = st.info[o].status == 'freed'
            if d['k'] == 'E':
                if freed or self.flag(st, o, 'deleted') == 1: dead.append((o, d))
        if any(d['k'] == 'E' for o, d in dead):
            self.settle(E, st)
            W = E.where()
            R = lambda rule, props, msg: self.report(E, st, rule, props, msg, where=W)
            self.end_blocks(E, st, R)
            for o, d in dead:
                self.end_entry(E, st, o, d, self.heldusers(st), R)
                if st.info[o].status != 'freed':
                    k = self.peek(st, o, self.ef, 'key')
                    if k is not None and k.__class__ is Ptr: self.drop(st, k.o)
            for o, d in dead: self.drop(st, o)
            self.reset_blocks(E, st)
        for o, d in ents:
            if d['k'] == 'T' and o in st.info and (st.info[o].status == 'freed' or (self.gc_root or self.settles) and self.tdel(st, o)):
                W = E.where(); self.end_table(E, st, o, d, self.heldusers(st), lambda rule, props, msg: self.report(E, st, rule, props, msg, where=W))
                if st.info[o].status == 'freed': self.drop(st, o)
                else: self.forget(E, st, o)
    def heldusers(self, st): return {}
    def tdel(self, st, o):
        v = self.peek(st, o, self.tf, 'deleted'); v = st.current(v) if v.__class__ is Lin else v
        return v == ONE
    def reset_blocks(self, E, st):
        """the free list was checked: it starts afresh"""
        nb = st.current(self.D(E, st, 'blocks_free')); p = self.peek(st, self.G, self.df, 'free_blocks')
        if p.__class__ is Lin: p = st.current(p)
        none = nb == Z and p == Z or self.gc_root
        for o in [o for o in st.info if o[0] in 'HM' and st.info[o].type in ('block_free_node', None, 'r:block_free_node') and (dict(st.og.get(o, ())).get('k') == 'N' or self.listed(st, o))]: self.drop(st, o)
        self.put(st, self.G, self.df, 'blocks_exist', fresh(0 if none else 1, (1 << 31) - 1, 'blocks_exist'))
        self.set_free(E, st, 0 if none else 1)
        st.g['ev'] = tuple(e for e in st.g.get('ev') or () if e[0] not in ('ftruncate', 'ftruncate!', 'unlink', 'unmapped'))
    def listed(self, st, o):
        p = self.peek(st, self.G, self.df, 'free_blocks'); n = 0
        while p.__class__ is Ptr and n < 20:
            if p.o == o: return True
            p = self.peek(st, p.o, self.nf, 'next') if p.o in st.mem else None; n += 1
            if p.__class__ is Lin: p = st.current(p)
        return False
    def forget(self, E, st, o):
        d = dict(st.og.get(o, ()))
        k = self.peek(st, o, self.ef if d.get('k') == 'E' else self.tf, 'key')
        if k is not None and k.__class__ is Ptr: self.drop(st, k.o)
        if d.get('k') == 'T':
            m = self.peek(st, o, self.tf, 'cache_hash_set')
            if m is not None:
                for s in st.maps.get(m.o, ())[1:]:
                    if s[0] == 'in' and s[3] is not None and s[3].o in st.info: self.forget(E, st, s[3].o)
                self.drop(st, m.o)
        self.drop(st, o)
    def drop(self, st, o):
        st.mem.pop(o, None); st.info.pop(o, None); st.og.pop(o, None); st.maps.pop(o, None)
    def clean(self, E, st, o):
        """is o an element that satisfies the class invariants, as if never met?"""
        d = dict(st.og.get(o, ()))
        if d.get('k') == 'E':
            return d['mode'] in ('complete', 'writing') and st.info[o].status != 'freed' and self.flag(st, o, 'deleted') == 0 and self.eqp(st, self.get(E, st, o, self.ef, 'refs'), d['o']) \
                and self.flag(st, o, 'writing') == (1 if d['mode'] == 'writing' else 0) and (self.lazy_lru or not self.moved(E, st, o, d))
        if d.get('k') == 'T':
            ms = self.peek(st, o, self.tf, 'cache_hash_set')
            if st.info[o].status == 'freed' or ms is None: return False
            de = self.peek(st, o, self.tf, 'deleted'); sz = st.current(self.get(E, st, ms.o, self.hf, 'size'))
            if de is None or st.current(de) != Z: return False
            refs = st.current(self.get(E, st, o, self.tf, 'refs'))
            for s, own in self.split(st, sz):
                if not self.eqp(s, refs, s.current(d['o']).plus(own)): return False
            return True
        return False
    def moved(self, E, st, o, d):
        for f, i in (('lru_prev', 'p0'), ('lru_next', 'n0')):
            v = self.cell(st, o, f)
            if v is not None and self.same(st, v, d[i]) is not True: return True
        return False
    def keep(self, E, st, o): return st.og.get(o) is not None and dict(st.og[o]).get('k') in ('E', 'T')

# ---------------------------------------------------------------------------------------------------
class Suite:
    def __init__(self, P, budget=500):
        self.P = P; self.W = DB(P); self.E = Engine(P, self.W, budget); self.E.models = dict(libc.MODELS); self.W.suite = self
        self.stats = []
    def heapkey(self, st, n, what):
        o = ('H', next(NOBJ), len(SYM)); st.info[o] = Info('heap', 'i8', n.plus(1), 'live', 'lazy', what); st.mem[o] = {}; st.own.add(o); return o
    def target(self, st, **cells):
        o = ('L', 0, '$target'); st.info[o] = Info('local', 'cache_target', K(self.P.sizeof('r:cache_target'))); st.mem[o] = {}; st.own.add(o)
        for n, v in cells.items(): st.cells(o)[(self.W.tfd[n]['o'], self.W.tfd[n]['w'])] = v
        return o
    def call(self, name, st, args, entry, after, nargs=None):
        """interprets public operation `name`, hands every exit to after(state, result)"""
        P, E, W = self.P, self.E, self.W
        ks = [k for k in P.functions if k.split('/')[0] == name and len(P.functions[k]['ps']) == len(args)]
        if len(ks) != 1: raise AnalysisBroken('anchor function %s/%d not found' % (name, len(args)))
        W.entry = '%s (%s)' % (name, entry); st.g.setdefault('ev', ()); E.stack = []; E.F = None
        t = time.time(); f = P.functions[ks[0]]
        fl = f.get('l', f.get('line', 0))
        r = E.run(st, ks[0], args)
        for s, v in r: after(s, v, '%s:%s (%s)' % (f['file'], fl, name))
        self.stats.append((W.entry, len(r), time.time() - t))

    def holders(self, tmodes, emodes=None):
        """pre-states in which the caller holds a table (and an entry of it)"""
        W, E = self.W, self.E
        for st, fr in W.start(E):
            for tm in tmodes:
                if emodes is None:
                    s = st.copy(); T = W.mk_table(E, s, tm, held=1); yield s, T, None, '%s table, %s' % (tm, fr)
                else:
                    for em in emodes:
                        if em in ('complete', 'writing') and tm != 'full': continue
                        s = st.copy(); T = W.mk_table(E, s, tm, held=1); e = W.mk_entry(E, s, T, em, held=1)
                        yield s, T, e, '%s table, %s entry, %s' % (tm, em, fr)

    # each op_* analyses one operation
    def op_table_get(self, write):
        W, E = self.W, self.E
        name = 'db_table_get_write' if write else 'db_table_get_read'
        for st, fr in W.start(E)[:1]:
            n = fresh(0, 16383, 'length'); k = self.heapkey(st, n, 'name given')
            def after(s, r, where):
                o = W.pobj(s, r) if r is not None and not (r.__class__ is Lin and s.current(r) == Z) else None
                R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=where)
                users = {o: 1} if o else {}
                if o is None:
                    if write: R('no-table', ('C04',), 'no table is given to store a key in')
                elif dict(s.og.get(o, ())).get('k') != 'T': R('wrong-table', ('C04',), 'what is returned is not a table')
                else:
                    W.ob('table lookups')
                    d = dict(s.og[o]); kl = W.get(E, s, o, W.tf, 'key_length'); kk = W.get(E, s, o, W.tf, 'key')
                    if W.pobj(s, kk) == k:
                        if not W.eqp(s, kl, n): R('wrong-name', ('C04',), 'a new table gets a name of another length')
                        h = W.get(E, s, o, W.tf, 'hash'); sl = [x for x in W.slots(s, W.tables(E, s)) if x[0] == 'in' and x[3] == Ptr(o)]
                        if not sl or not W.eqp(s, sl[0][2], h): R('wrong-slot', ('C04', 'C05'), 'a new table is stored under another hash than the one it remembers')
                    else:
                        if not W.eqp(s, kl, n): R('name-mismatch', ('C04',), 'a table is returned although the length of its name may differ from the requested one')
                        elif not W.eq_known(s, kk, Ptr(k), s.current(n)): R('name-mismatch', ('C04',), 'a table is returned although its name may differ from the requested one')
                W.finish(E, s, r, users, what=where)
            self.call(name, st, [Ptr(k), n], fr, after)
    def op_entry_get(self, kind):
        W, E = self.W, self.E
        name = 'db_entry_get_' + kind
        for st, T, _, pre in self.holders(('full', 'empty', 'deleted')):
            n = fresh(0, 16383, 'length'); k = self.heapkey(st, n, 'key given')
            before = set(st.og)
            def after(s, r, where):
                o = W.pobj(s, r) if r is not None and not (r.__class__ is Lin and s.current(r) == Z) else None
                R = lambda rule, props, msg: W.report(E, s, rule, props, msg, where=where)
                acc = {x: s.current(s.g.get('err:' + x) or Z) for x in ACC}
                now = s.current(E.load(s, (W.nowo, Z) + W.nowk, 'i64'))
                hit = None
                if o is not None:
                    W.ob('key lookups')
                    d = dict(s.og.get(o, ()))
                    if d.get('k') != 'E': R('wrong-entry', ('C04',), 'what is returned is not an entry of the table')
                    else:
                        kl = W.get(E, s, o, W.ef, 'key_length'); kk = W.get(E, s, o, W.ef, 'key'); tb = W.get(E, s, o, W.ef, 'table')
                        if W.pobj(s, tb) != T: R('wrong-table', ('C04',), 'an entry of another table is returned')
                        if W.flag(s, o, 'deleted') != 0: R('removed-returned', ('C04', 'C05'), 'a removed entry is returned')
                        if kind == 'write':
                            if d['mode'] != 'new': R('reused-entry', ('C03', 'C06'), 'an upload is given an entry that is already in the table')
                            if W.pobj(s, kk) != k or not W.eqp(s, kl, n): R('wrong-key', ('C04',), 'a new entry does not get the requested key')
                            if W.flag(s, o, 'writing') != 1: R('readable-early', ('C03',), 'a new entry is readable before its upload is complete')
                            h = W.get(E, s, o, W.ef, 'hash'); ms = W.peek(s, T, W.tf, 'cache_hash_set').o
                            sl = [x for x in W.slots(s, ms) if x[0] == 'in' and x[3] == Ptr(o)]
                            if not sl or not W.eqp(s, sl[0][2], h): R('wrong-slot', ('C04', 'C05'), 'a new entry is stored under another hash than the one it remembers')
                            b = s.current(W.get(E, s, o, W.ef, 'block')); dl = s.current(W.get(E, s, o, W.ef, 'data_length'))
                            if s.hi(b) >= 0 : R('foreign-block', ('C07',), 'a new entry starts with a block it does not own')
                            if s.current(W.get(E, s, o, W.ef, 'expires')) != Z: R('expires', ('C11',), 'a new entry starts with an expiry time')
                        else:
                            if W.pobj(s, kk) == k: pass
                            elif not W.eqp(s, kl, n): R('key-mismatch', ('C04',), 'an entry is returned although the length of its key may differ from the requested one')
                            elif not W.eq_known(s, kk, Ptr(k), s.current(n)): R('key-mismatch', ('C04',), 'an entry is returned although its key may differ from the requested one')
                        if kind == 'read':
                            hit = o
                            if W.flag(s, o, 'writing') != 0: R('readable-early', ('C03', 'C04'), 'an entry that is still being uploaded is returned')
                            ex = s.current(W.get(E, s, o, W.ef, 'expires')); t = s.copy()
                            if t.add_ne(ex) and t.add_le(t.current(ex).plus(1).sub(now)): R('expired-served', ('C11',), 'an entry whose expiry time has passed is returned')
                        want = {'read': 'db_stats_gets', 'write': 'db_stats_inserts', 'delete': 'db_stats_deletes'}[kind]
                        for x in ACC[2:5]:
                            if acc[x] != (ONE if x == want else Z): R('statistics', ('C08',), 'a successful %s changes the counter %s by %s' % (kind, x, W.show(acc[x])))
                elif kind == 'read':
                    # refused although it could be served?
                    for e, g in s.og.items():
                        d = dict(g)
                        if d.get('k') == 'E' and d['mode'] == 'complete':
                            kl = W.get(E, s, e, W.ef, 'key_length') if s.info[e].status != 'freed' else None
                            if kl is None: continue
                            t = s.copy(); ex = t.current(W.get(E, t, e, W.ef, 'expires'))
                            match = W.eqp(s, kl, n) and W.eq_known(s, W.get(E, s, e, W.ef, 'key'), Ptr(k), s.current(n))
                            if match and (W.notexp(t.copy(), ex, now)): R('hit-refused', ('C11', 'C04'), 'an entry with the requested key that is complete and not expired is not returned')
                # what was removed had expired (reads and deletes), or is replaced (writes)
                for e, g in list(s.og.items()):
                    d = dict(g)
                    if d.get('k') == 'E' and d['mode'] in ('complete', 'writing') and (s.info[e].status == 'freed' or W.flag(s, e, 'deleted') == 1):
                        ex = s.current(W.peek(s, e, W.ef, 'expires')); W.ob('removals by lookups')
                        if kind == 'read' and W.notexp(s.copy(), ex, now, True): R('live-removed', ('C11', 'C05', 'C04'), 'an entry whose expiry time has not passed is removed')
                        if kind == 'delete': R('live-removed', ('C04',), 'looking up an entry to delete removes one')
                        if kind == 'write' and d['mode'] == 'writing': R('upload-replaced', ('C03',), 'an entry is replaced while it is being uploaded')
                W.finish(E, s, r, {o: 1} if o else {}, hit=hit, what=where)
            self.call(name, st, [Ptr(T), Ptr(k), n], pre, after)
    def op_entry_delete(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full',), ('complete', 'writing')):
            def after(s, r, where):
                if W.flag(s, e, 'deleted') != 1: W.report(E, s, 'not-removed', ('C05',), 'an entry is not marked as removed', where=where)
                W.finish(E, s, None, {}, what=where)
            self.call('db_entry_handle_delete', st, [Ptr(e)], pre, after)
    def op_table_delete(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full', 'empty')):
            def after(s, r, where):
                d = W.peek(s, T, W.tf, 'deleted')
                if s.info[T].status != 'freed' and (d is None or s.current(d) != ONE): W.report(E, s, 'not-removed', ('C05',), 'a table is not marked as removed', where=where)
                W.finish(E, s, None, {}, what=where)
            W.pinned = (T,)
            self.call('db_table_handle_delete', st, [Ptr(T)], pre, after); W.pinned = ()
    def op_table_close(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full', 'empty', 'deleted')):
            self.call('db_table_close', st, [Ptr(T)], pre, lambda s, r, where: W.finish(E, s, None, {T: -1}, what=where))
    def op_entry_close(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full', 'empty', 'deleted'), ('complete', 'deleted', 'gone')):
            for fd in ('none', 'block file', 'file'):
                s = st.copy()
                bf = W.D(E, s, 'fd_blockfile')
                if fd == 'none': v = MONE
                elif fd == 'block file': v = bf
                else:
                    v = fresh(0, (1 << 31) - 1, 'fd'); s.add_ne(v.sub(bf))
                    if not s.add_le(K(W.BL + 1).sub(W.get(E, s, e, W.ef, 'data_length'))): continue
                t = self.target(s, entry=Ptr(e), fd=v, position=fresh(0, 1 << 62), end_position=fresh(0, 1 << 62))
                def after(s2, r, where):
                    R = lambda rule, props, msg: W.report(E, s2, rule, props, msg, where=where)
                    en = W.peek2(s2, t, 'entry')
                    if en is None or s2.current(en) != Z: R('target-kept', ('C06',), 'a closed target still refers to its entry')
                    cl = [x for x in s2.g['ev'] if x[0] == 'close']
                    W.ob('descriptor checks')
                    if fd == 'file' and not any(s2.current(x[1]) == s2.current(v) for x in cl): R('descriptor-leak', ('C16',), 'the data file stays open')
                    if fd != 'file' and cl: R('wrong-close', ('C16', 'C07'), 'a descriptor is closed that is not the data file of the entry')
                    W.finish(E, s2, None, {e: -1, T: -1}, what=where)
                self.call('db_target_entry_close', s, [Ptr(t)], pre + ', fd: ' + fd, after)
    def op_complete(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full', 'empty', 'deleted'), ('writing', 'gone')):
            def after(s, r, where):
                if W.flag(s, e, 'writing') != 0: W.report(E, s, 'never-readable', ('C03',), 'a complete upload stays unreadable', where=where)
                W.finish(E, s, None, {}, what=where)
            self.call('db_complete_writing', st, [Ptr(e)], pre, after)
    def op_allocate(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full', 'deleted'), ('writing', 'gone')):
            for fd in ('none', 'block file', 'file'):
                s = st.copy(); bf = W.D(E, s, 'fd_blockfile'); dl = W.get(E, s, e, W.ef, 'data_length'); b = W.get(E, s, e, W.ef, 'block')
                if fd == 'none':
                    v = MONE
                    s.add_eq(s.current(dl)); s.add_eq(s.current(b).plus(2))
                elif fd == 'block file':
                    v = bf
                    if not s.add_le(dl.plus(-W.BL)): continue
                    s.add_le(K(-1).sub(s.current(b)))
                else:
                    v = fresh(0, (1 << 31) - 1, 'fd'); s.add_ne(v.sub(bf))
                    if not s.add_le(K(W.BL + 1).sub(dl)): continue
                    s.add_eq(s.current(b).plus(1))
                n = fresh(0, (1 << 32) - 1, 'declared length')
                t = self.target(s, entry=Ptr(e), fd=v, position=fresh(0, 1 << 62), end_position=fresh(0, 1 << 62))
                W.redecl = (e,); W.may_swap = True
                def after(s2, r, where):
                    R = lambda rule, props, msg: W.report(E, s2, rule, props, msg, where=where)
                    nd = s2.current(W.get(E, s2, e, W.ef, 'data_length')); W.ob('allocations')
                    if not W.eqp(s2, nd, n): R('declared-length', ('C08', 'C03'), 'the declared length of an upload is not recorded')
                    pos, end, f2 = (W.peek2(s2, t, x) for x in ('position', 'end_position', 'fd'))
                    f2 = s2.current(f2)
                    ev = s2.g['ev']; opened = [x for x in ev if x[0] == 'open']; oks = [x for x in ev if x[0] == 'opened']
                    cl = [x for x in ev if x[0] == 'close']
                    if fd == 'file' and not any(s2.current(x[1]) == s2.current(v) for x in cl): R('descriptor-leak', ('C16',), 'the previous data file stays open')
                    if any(s2.current(x[1]) == s2.current(bf) for x in cl): R('wrong-close', ('C16', 'C07'), 'the block file is closed')
                    # removal of the previous file
                    d = dict(s2.og[e])
                    if fd == 'file' and d['mode'] == 'writing' and d.get('path') is not None:
                        p = W.cur(s2, d['path'])
                        if not any(x[0] == 'unlink' and W.cur(s2, x[1]) == p for x in ev): R('file-kept', ('C05',), 'the previous data file of an upload is kept when its length is declared again')
                    sp, se = s2.current(pos), s2.current(end)
                    for s3, big in ((s2.copy(), 0), (s2.copy(), 1)):
                        nn = s3.current(n)
                        if not (s3.add_le(K(W.BL + 1).sub(nn)) if big else s3.add_le(nn.plus(-W.BL))): continue
                        b1 = s3.current(W.get(E, s3, e, W.ef, 'block')); p1, e1 = s3.current(sp), s3.current(se)
                        if not W.eqp(s3, e1.sub(p1), s3.current(n)): R('end-position', ('C03', 'C17'), 'the end of the space for an upload is not its start plus the declared length')
                        if big:
                            if not W.eqp(s3, p1, Z): R('start-position', ('C03', 'C07'), 'an upload into a file does not start at the beginning')
                            if not W.eqp(s3, b1, MONE): R('block-kept', ('C07',), 'an upload stored in a file keeps a block')
                            if s3.lo(s3.current(f2)) >= 0:
                                if W.eqp(s3, f2, s3.current(bf)): R('wrong-file', ('C07', 'C03'), 'a value larger than a block is stored in the block file')
                                elif not any(s3.current(x[1]) == f2 for x in oks): R('wrong-file', ('C03', 'C16'), 'an upload is stored in a file that was not opened for it')
                                else:
                                    en = W.path_of_entry(E, s3, e)
                                    if en is not None and opened and W.cur(s3, opened[-1][1]) != W.cur(s3, en): R('wrong-file', ('C03', 'C12'), 'an upload is stored in another file than the one that is read for its key')
                                    if not any(x[0] in ('ftruncate', 'ftruncate!') and s3.current(x[1]) == f2 for x in ev): pass
                                if d['mode'] == 'gone' and opened:
                                    i = max(i for i, x in enumerate(ev) if x[0] == 'open')
                                    if not any(x[0] == 'unlink' and W.cur(s3, x[1]) == W.cur(s3, opened[-1][1]) for x in ev[i:]): R('file-kept', ('C05',), 'the file of an upload that was already removed is not unlinked')
                                elif opened:
                                    i = max(i for i, x in enumerate(ev) if x[0] == 'open')
                                    if any(x[0] == 'unlink' and W.cur(s3, x[1]) == W.cur(s3, opened[-1][1]) for x in ev[i:]): R('file-lost', ('C03', 'C05'), 'the file of an upload is unlinked')
                        else:
                            if not W.eqp(s3, f2, s3.current(bf)): R('wrong-file', ('C07', 'C03'), 'a value that fits a block is not stored in the block file')
                            if not W.eqp(s3, p1, b1.mul(W.BL)): R('start-position', ('C07', 'C03'), 'an upload does not start at the beginning of its block')
                            if s3.lo(b1) < -1: R('no-block', ('C07', 'C03'), 'an upload that fits a block gets none')
                    W.finish(E, s2, None, {}, what=where)
                self.call('db_target_write_allocate', s, [Ptr(t), n], pre + ', fd: ' + fd, after)
                W.redecl = ()
    def op_setup(self):
        W, E = self.W, self.E
        for st, T, e, pre in self.holders(('full',), ('complete',)):
            for write in (0, 1):
                s = st.copy(); t = self.target(s, entry=Ptr(e), fd=MONE)
                def after(s2, r, where):
                    R = lambda rule, props, msg: W.report(E, s2, rule, props, msg, where=where)
                    pos, end, f2 = (W.peek2(s2, t, x) for x in ('position', 'end_position', 'fd'))
                    f2 = s2.current(f2) if f2 is not None else None
                    if write:
                        if f2 != MONE: R('target-fd', ('C16', 'C03'), 'a new upload starts with a descriptor')
                    else:
                        W.ob('target setups'); bf = s2.current(W.D(E, s2, 'fd_blockfile'))
                        for s3, big in ((s2.copy(), 0), (s2.copy(), 1)):
                            dl = s3.current(W.get(E, s3, e, W.ef, 'data_length'))
                            if not (s3.add_le(K(W.BL + 1).sub(dl)) if big else s3.add_le(dl.plus(-W.BL))): continue
                            dl = s3.current(dl); b1 = s3.current(W.get(E, s3, e, W.ef, 'block')); p1, e1 = s3.current(pos), s3.current(end)
                            if not W.eqp(s3, e1.sub(p1), dl): R('end-position', ('C01',), 'the end of a value to be sent is not its start plus its size')
                            if big:
                                if not W.eqp(s3, p1, Z): R('start-position', ('C01',), 'a value is not sent from its first byte')
                            else:
                                if not W.eqp(s3, s3.current(f2), bf): R('wrong-file', ('C01', 'C07'), 'a value that fits a block is not read from the block file')
                                if not W.eqp(s3, p1, b1.mul(W.BL)): R('start-position', ('C01', 'C07'), 'a value is not read from the beginning of its block')
                    W.finish(E, s2, None, {}, what=where)
                self.call('db_target_setup', s, [Ptr(t), Ptr(e), K(write)], pre + (', write' if write else ', read'), after)
    def op_lru_gc(self):
        W, E = self.W, self.E
        W.gc_root = True; W.parent_only = True; W.softcells = ((W.G, W.df['table_gc']['o']),)
        import absint; absint.COARSE = True
        try:
            for st, fr in W.start(E)[:1]:
                W.tables(E, st); E.load(st, (W.nowo, Z) + W.nowk, 'i64'); W.get(E, st, W.G, W.df, 'db_size_bytes'); W.get(E, st, W.G, W.df, 'table_gc')
                self.call('db_lru_gc', st, [], fr, lambda s, r, where: W.finish(E, s, None, {}, what=where))
        finally: W.gc_root = W.parent_only = False

def _notexp(self, t, ex, now, strict=False):
    """may the expiry time ex lie ahead (or be absent)?"""
    if t.current(ex) == Z: return True
    a = t.copy()
    if a.add_eq(a.current(ex)): return True
    if t.add_le(t.current(now).plus(1 if strict or True else 0).sub(t.current(ex))): return True
    return False
DB.notexp = _notexp
DB.peek2 = lambda self, st, t, n: cellof(st, t, (self.tfd[n]['o'], self.tfd[n]['w']))
DB.redecl = ()
DB.redeclared = lambda self, st, o: o in self.redecl

def run(P, ops, budget=500):
    S = Suite(P, budget)
    for o in ops:
        n, a = (o, ()) if o.__class__ is str else (o[0], o[1:])
        getattr(S, 'op_' + n)(*a)
    return S
ALL = [('table_get', False), ('table_get', True), ('entry_get', 'read'), ('entry_get', 'write'), ('entry_get', 'delete'), 'entry_delete', 'table_delete', 'table_close', 'entry_close', 'complete', 'allocate', 'setup', 'lru_gc']
if __name__ == '__main__':
    import prog
    P = prog.Program('release'); t = time.time()
    ops = ALL if len(sys.argv) < 2 else [eval(x) if x[0] == '(' else x for x in sys.argv[1:]]
    for o in ops:
        S = run(P, [o])
        print(o, 'exits', sum(x[1] for x in S.stats), '%.1fs' % (time.time() - t), 'steps', S.E.steps, dict(S.W.obl)); t = time.time()
        for f in S.W.findings.values(): print('   ', f.props, f.text()[:1500])
        print('   unknown', getattr(S.E, 'unknown', {}))
