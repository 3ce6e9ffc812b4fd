"""The database side of the abstract heap: hash tables as abstract maps, entries, tables, recency list,
free blocks, reference counts.  Objects met in the tables are introduced with the class invariants of
INVARIANTS below; every rule is a statement about what an operation leaves behind."""
import re, os
from absint import *
from prog import AnalysisBroken, REPO
import libc, prog as progmod

def og(st, o): return dict(st.og.get(o, ()))
def ogset(st, o, /, **k):
    d = dict(st.og.get(o, ())); d.update(k); st.og[o] = tuple(d.items())

class Finding:
    def __init__(self, rule, props, where, msg, entry, trace, key):
        self.rule = rule; self.props = props; self.where = where; self.msg = msg; self.entry = entry; self.trace = trace; self.key = key
    def text(self):
        return '%s: [%s] %s; entry %s; path: %s' % (self.where, self.rule, self.msg, self.entry, ' > '.join(self.trace))

def trace_of(st, n=40):
    t = st.trace; out = []
    while t is not None and len(out) < n:
        f, l, x = t[1]; t = t[0]
        if x.__class__ is tuple: continue
        out.append('%s:%s %s' % (os.path.basename(f) if f else '', l, x if x not in (True, False) else ('taken' if x else 'not taken')))
    return out[::-1]

def block_length():
    m = None
    for d in ('src/core/config.h', 'src/core/db.h', 'src/core/db_structures.h', 'src/core/db.cpp'):
        p = os.path.join(REPO, d)
        if os.path.exists(p): m = m or re.search(r'BLOCK_LENGTH\s*(?:=\s*)?(\d+)', open(p, errors='replace').read())
    if not m: raise AnalysisBroken('BLOCK_LENGTH not found')
    return int(m.group(1))

ACC = ('db_size_bytes', 'db_keys', 'db_stats_inserts', 'db_stats_gets', 'db_stats_deletes', 'db_stats_operations')
NUSERS = 20000   # connections open at the same time (reference counts are 15/16 bits wide)

def cellof(st, o, k):
    """what a cell holds now, None if that is not known; memory that was cleared holds zeros"""
    c = st.mem.get(o, {}); v = c.get(k)
    if v is None:
        i = st.info.get(o)
        if i is not None and i.default == 'zero' and not any(x[0] == 's' or x[0] < k[0] + k[1] and k[0] < x[0] + x[1] for x in c): return Z
    return v

class World(Hooks):
    lazy_lru = False          # True: recency list not followed
    def __init__(self, P):
        self.P = P; self.findings = {}; self.entry = '?'; self.checks = {}; self.BL = block_length()
        self.g = next((k for k, v in P.globals.items() if k.endswith('db') and v['t'] == 'r:db_details'), None)
        if self.g is None: raise AnalysisBroken('anchor: global of type db_details')
        self.G = ('G', self.g)
        F = P.field
        self.ef = {n: F('cache_entry', n) for n in ('table', 'hash', 'key', 'key_length', 'writing', 'deleted', 'refs', 'data_length', 'block', 'expires', 'lru_next', 'lru_prev', 'it')}
        self.tf = {n: F('db_table', n) for n in ('hash', 'key', 'key_length', 'cache_hash_set', 'refs', 'deleted')}
        self.df = {n: F('db_details', n) for n in ('fd_blockfile', 'lru_head', 'lru_tail', 'free_blocks', 'blocks_exist', 'blocks_free', 'tables', 'table_gc') + ACC}
        self.nf = {n: F('block_free_node', n) for n in ('block_number', 'next')}
        self.off = {}
        for nm, d in (('E', self.ef), ('T', self.tf), ('D', self.df), ('N', self.nf)):
            for n, f in d.items(): self.off[nm, f['o']] = n
        self.size = {n: P.sizeof('r:' + r) for n, r in (('E', 'cache_entry'), ('T', 'db_table'), ('N', 'block_free_node'))}
        self.setrec = {'entry': 'kh_entry_s', 'table': 'kh_table_s'}
        self.hf = {n: F('kh_entry_s', n) for n in ('n_buckets', 'size', 'vals', 'keys')}
        self.now = None
        self.tfd = {n: F('cache_target', n) for n in ('entry', 'position', 'end_position', 'fd')}
        self.obl = {}

    # ---- reporting
    def report(self, E, st, rule, props, msg, where=None):
        where = where or E.where()
        key = (rule, re.sub(r'\b[HM]:\d+:\d+|s\d+', '_', msg), where.split(' ')[0] if where else '')
        k2 = (rule, where, self.entry)
        if k2 in self.findings: return
        self.findings[k2] = Finding(rule, props, where, msg, self.entry, trace_of(st), key)
    def ob(self, name, n=1): self.obl[name] = self.obl.get(name, 0) + n

    # ---- field access
    def get(self, E, st, o, d, n):
        f = d[n]; return E.load(st, (o, Z, f['o'], f['w']), f['t'])
    def put(self, st, o, d, n, v): st.cells(o)[(d[n]['o'], d[n]['w'])] = v
    def peek(self, st, o, d, n):
        return cellof(st, o, (d[n]['o'], d[n]['w']))
    def D(self, E, st, n): return self.get(E, st, self.G, self.df, n)

    def mobj(self, st, kind, type, size):
        o = ('M', next(NOBJ), len(SYM)); st.info[o] = Info('heap', type, K(size) if size.__class__ is int else size, 'live', 'lazy', kind); st.mem[o] = {}; st.own.add(o)
        return o

    # ---- the class invariants
    def tables(self, E, st):
        v = self.peek(st, self.G, self.df, 'tables')
        if v is None:
            m = self.mobj(st, 'tables', 'kh_table_s', 40); ogset(st, m, k='set', of='tables')
            st.maps[m] = ('any',)
            self.put(st, m, self.hf, 'n_buckets', fresh(0, 1 << 31, 'n_buckets')); self.put(st, m, self.hf, 'size', fresh(0, 1 << 31, 'size'))
            self.put(st, self.G, self.df, 'tables', Ptr(m)); return m
        return v.o
    def mk_table(self, E, st, mode, held=0, size=None, slot=True, h=None):
        """mode: 'empty' (no entries, but users), 'full' (has entries), 'deleted' (removed, users left)"""
        T = self.mobj(st, 'table', 'db_table', self.size['T'])
        m = self.mobj(st, 'keys', 'kh_entry_s', 40); ogset(st, m, k='set', of=Ptr(T))
        lo = {'empty': max(held, 1), 'full': held, 'deleted': max(held, 1)}[mode]
        n = fresh(lo, NUSERS, 'users of table')
        ogset(st, T, k='T', o=n, own0=1 if mode == 'full' else 0, name=None)
        P = self.put
        P(st, T, self.tf, 'deleted', K(1 if mode == 'deleted' else 0)); P(st, T, self.tf, 'refs', n.plus(1) if mode == 'full' else n)
        P(st, T, self.tf, 'cache_hash_set', Ptr(m))
        h = h if h is not None else fresh(0, (1 << 32) - 1, 'table hash'); P(st, T, self.tf, 'hash', h)
        self.mk_key(E, st, T, self.tf, 'table name', ((1 << 16) - 1))
        st.maps[m] = ('any',) if mode == 'full' else ('empty',)
        nb = fresh(1 if mode == 'full' else 0, 1 << 31, 'n_buckets')
        P(st, m, self.hf, 'n_buckets', nb)
        sz = fresh(1, 1 << 30, 'keys in table') if mode == 'full' else Z
        P(st, m, self.hf, 'size', sz)
        if mode == 'full': st.add_le(sz.sub(nb))
        self.scan_start(E, st, m)
        if mode != 'deleted' and slot:
            M = self.tables(E, st)
            self.newslot(E, st, M, h, Ptr(T))
        self.note_new(E, st, T)
        return T
    def mk_key(self, E, st, o, d, what, maxlen):
        kl = fresh(0, maxlen, 'key length'); k = self.mobj(st, what, 'i8', kl); ogset(st, k, k='key', of=Ptr(o))
        self.put(st, o, d, 'key', Ptr(k)); self.put(st, o, d, 'key_length', kl)
    def mk_entry(self, E, st, T, mode, held=0, h=None, obj=None):
        """mode: 'complete', 'writing', 'deleted' (complete, removed), 'gone' (removed while being written)"""
        o = obj or self.mobj(st, 'entry', 'cache_entry', self.size['E'])
        P = self.put
        lo = max(held, 1) if mode != 'complete' else held
        n = fresh(lo, NUSERS, 'users of entry')
        P(st, o, self.ef, 'table', Ptr(T)); P(st, o, self.ef, 'refs', n)
        P(st, o, self.ef, 'writing', K(1 if mode in ('writing', 'gone') else 0)); P(st, o, self.ef, 'deleted', K(1 if mode in ('deleted', 'gone') else 0))
        h = h if h is not None else fresh(0, (1 << 32) - 1, 'entry hash'); P(st, o, self.ef, 'hash', h)
        self.mk_key(E, st, o, self.ef, 'entry key', (1 << 14) - 1)
        dl = fresh(0, (1 << 32) - 1, 'data length'); P(st, o, self.ef, 'data_length', dl)
        b = fresh(-2 if mode in ('writing', 'gone') else -1, (1 << 31) - 2, 'block'); P(st, o, self.ef, 'block', b)
        st.add_le(b.plus(1).sub(self.D(E, st, 'blocks_exist')))
        P(st, o, self.ef, 'expires', fresh(0, 1 << 40, 'expires')); P(st, o, self.ef, 'it', fresh(0, 65535, 'it'))
        inlist = mode == 'complete'
        p = fresh_t('p:r:cache_entry', 'prev') if inlist else Z; nx = fresh_t('p:r:cache_entry', 'next') if inlist else Z
        P(st, o, self.ef, 'lru_prev', p); P(st, o, self.ef, 'lru_next', nx)
        ogset(st, o, k='E', o=n, mode=mode, inl=inlist, p0=p, n0=nx, dl0=dl, b0=b, cnt=mode in ('complete', 'writing'))
        if inlist:
            ogset(st, ('*', sid(p)), k='Nb', e=Ptr(o), side='next'); ogset(st, ('*', sid(nx)), k='Nb', e=Ptr(o), side='prev')
            st.info[('*', sid(p))] = Info('ext', 'cache_entry', K(self.size['E'])); st.info[('*', sid(nx))] = Info('ext', 'cache_entry', K(self.size['E']))
        if mode in ('complete', 'writing'):
            m = self.peek(st, T, self.tf, 'cache_hash_set').o
            self.newslot(E, st, m, h, Ptr(o))
        ogset(st, o, path=self.path_of_entry(E, st, o))
        self.note_new(E, st, o)
        return o
    def note_new(self, E, st, o): pass

    reader = None
    def path_of_entry(self, E, st, o):
        """the name under which the data file of entry o is opened for reading (found by following the
        function that opens an entry for reading)"""
        if self.reader == 'off': return None
        if getattr(self, 'inreader', False): return None
        self.inreader = True
        try:
            s = st.copy(); t = ('L', 0, '$target'); s.info[t] = Info('local', 'cache_target', K(self.P.sizeof('r:cache_target')))
            f = self.tfd['entry']; s.cells(t)[(f['o'], f['w'])] = Ptr(o)
            if not s.add_le(K(self.BL + 1).sub(s.current(self.peek(s, o, self.ef, 'data_length')))): return None
            s.g['ev'] = ()
            key = self.P.need('db_target_setup')
            sv = self.event_on; self.event_on = True
            saveF = (E.F, E.fid, E.line, E.ins, E.stack); E.stack = []
            s.frames = []
            try: r = E.run(s, key, [Ptr(t), Ptr(o), Z])
            finally: self.event_on = sv; E.F, E.fid, E.line, E.ins, E.stack = saveF
            ds = {e[1] for s2, _ in r for e in s2.g.get('ev', ()) if e[0] == 'open'}
            if len(ds) != 1: return None
            return ds.pop()
        finally: self.inreader = False

    # ---- hash tables
    def newslot(self, E, st, m, h, val):
        nb = self.get(E, st, m, self.hf, 'n_buckets'); sz = self.get(E, st, m, self.hf, 'size')
        k = fresh(0, (1 << 31) - 1, 'slot')
        if not st.add_le(st.current(k).plus(1).sub(nb)): return None
        k = st.current(k)
        nin = 1
        for s in st.maps[m][1:]:
            if s[0] == 'in':
                nin += 1
                st.add_ne(s[1].sub(k))
                if s[2] != h: st.add_ne(s[2].sub(h))
        if not st.add_le(K(nin).sub(st.current(sz))): return None
        st.maps[m] = st.maps[m] + (('in', k, h, val),)
        return st.current(k)
    def slots(self, st, m): return st.maps.get(m, ('any',))[1:]
    def setslots(self, st, m, sl): st.maps[m] = (st.maps[m][0],) + tuple(sl)
    def mapof(self, E, st, v):
        if v.__class__ is Lin and v.t:
            v = E.topointer(st, v, None) or v
        if v.__class__ is not Ptr: return None
        if st.info.get(v.o) is not None and st.info[v.o].status == 'freed': self.uaf(E, st, v.o, 'use of the hash table'); 
        return v.o if v.o in st.maps else None
    def kh_get(self, E, st, a, I):
        m = self.mapof(E, st, a[0])
        if m is None: return [(st, fresh(0, (1 << 32) - 1, 'kh_get'))]
        return [(s, s.current(self.get(E, s, m, self.hf, 'n_buckets')) if k is None else k) for s, k, _ in self.find(E, st, m, a[1])]
    def find(self, E, st, m, h):
        """[(state, slot index or None, value)] of a lookup of h"""
        out = []
        cur = st
        for s in list(self.slots(st, m)):
            if s[0] == 'no': continue
            h2 = cur.current(s[1] if s[0] == 'out' else s[2]); hh = cur.current(h)
            d = h2.sub(hh)
            if cur.prove_ne(d): continue
            eq = cur.copy() if d.t else None
            if not d.t:      # equal
                cur_s = [x for x in self.slots(cur, m) if x[0] == s[0] and (x[1] if x[0] == 'out' else x[2]) == h2]
                out.append((cur, None, None) if s[0] == 'out' else (cur, cur_s[0][1] if cur_s else s[1], cur_s[0][3] if cur_s else s[3]))
                return out
            if eq.add_eq(d):
                i = self.slots(st, m).index(s)
                s2 = self.slots(eq, m)[i]
                out.append((eq, None, None) if s[0] == 'out' else (eq, s2[1], s2[3]))
            if not cur.add_ne(d): return out
        h = cur.current(h)
        s1 = cur.copy()
        self.setslots(s1, m, self.slots(s1, m) + (('out', h),)); out.append((s1, None, None))
        if st.maps[m][0] == 'any': out += self.newentry(E, cur, m, h)
        return out
    def newentry(self, E, st, m, h):
        """an element of m not met before, with hash h: introduced under the class invariants"""
        sz = st.current(self.get(E, st, m, self.hf, 'size')); nin = sum(1 for s in self.slots(st, m) if s[0] == 'in')
        if not st.add_le(K(nin + 1).sub(sz)) or self.emptied(E, st, m): return []
        of = og(st, m)['of']; out = []
        if of == 'tables':
            for mode in ('empty', 'full'):
                s = st.copy(); n = len(self.slots(s, m))
                T = self.mk_table(E, s, mode, h=h)
                sl = self.slots(s, m)
                if len(sl) == n: continue
                out.append((s, sl[-1][1], sl[-1][3]))
        else:
            self.settle(E, st)
            for mode in ('complete', 'writing'):
                s = st.copy(); n = len(self.slots(s, m))
                e = self.mk_entry(E, s, of.o, mode, h=h)
                sl = self.slots(s, m)
                if len(sl) == n: continue
                out.append((s, sl[-1][1], sl[-1][3]))
        return out
    def kh_put(self, E, st, a, I):
        m = self.mapof(E, st, a[0])
        if m is None: return [(st, fresh(0, (1 << 32) - 1, 'kh_put'))]
        out = []
        for s, k, v in self.find(E, st, m, a[1]):
            if k is not None:
                if a[2].__class__ is Ptr: E.store(s, (a[2].o, a[2].f, 0, 32), Z, 'i32')
                self.event(E, s, 'put-present', m, v)
                out.append((s, k)); continue
            h = s.current(a[1]); sl = [x for x in self.slots(s, m) if not (x[0] == 'out' and x[1] == h) and x[0] != 'no']
            # the table may be resized: all positions change
            nb = fresh(1, 1 << 31, 'n_buckets'); self.put(s, m, self.hf, 'n_buckets', nb)
            sz = self.get(E, s, m, self.hf, 'size').plus(1); self.put(s, m, self.hf, 'size', sz)
            s.add_le(s.current(sz).sub(nb)) if True else None
            new = []; ks = []
            for x in sl:
                if x[0] == 'in':
                    kk = fresh(0, (1 << 31) - 1, 'slot'); s.add_le(kk.plus(1).sub(nb)); ks.append(kk); new.append(('in', kk, x[2], x[3]))
                else: new.append(x)
            k = fresh(0, (1 << 31) - 1, 'slot'); s.add_le(k.plus(1).sub(nb))
            for kk in ks: s.add_ne(s.current(kk).sub(s.current(k)))
            new = [tuple(s.current(y) if y.__class__ is Lin else y for y in x) for x in new]
            k = s.current(k)
            self.setslots(s, m, new + [('in', k, h, None)])
            if a[2].__class__ is Ptr: E.store(s, (a[2].o, a[2].f, 0, 32), fresh(1, 2, 'kh_put'), 'i32')
            of = og(s, m).get('of')
            if of != 'tables': s.g['err:keys'] = s.current((s.g.get('err:keys') or Z)).plus(-1)
            out.append((s, k))
        return out
    def slot_at(self, E, st, m, k):
        """index in the slot list of the element at position k"""
        k = st.current(k)
        for i, s in enumerate(self.slots(st, m)):
            if s[0] == 'in' and s[1].sub(k) == Z: return i
        return None
    PRE, SUF = (1 << 22, 64), (1 << 22) + 64
    def empties(self, E, st, m, k):
        """position k is now known to hold nothing: does the stretch of positions known to be empty grow?"""
        c = st.cells(m); k = st.current(k)
        p = c.get((1 << 22, 64)); q = c.get(((1 << 22) + 64, 64))
        if p is not None and st.current(p) == k: c[(1 << 22, 64)] = k.plus(1)
        if q is not None and st.current(q) == k.plus(1): c[((1 << 22) + 64, 64)] = k
    def fills(self, E, st, m):
        st.cells(m).pop((1 << 22, 64), None); st.cells(m).pop(((1 << 22) + 64, 64), None)
    def scan_start(self, E, st, m):
        c = st.cells(m); nb = self.get(E, st, m, self.hf, 'n_buckets'); c[(1 << 22, 64)] = Z; c[((1 << 22) + 64, 64)] = st.current(nb)
    def emptied(self, E, st, m):
        """all positions are known to be empty"""
        c = st.mem.get(m, {}); nb = st.current(self.get(E, st, m, self.hf, 'n_buckets'))
        p = c.get((1 << 22, 64)); q = c.get(((1 << 22) + 64, 64))
        return p is not None and st.prove(nb.sub(st.current(p))) or q is not None and st.prove(st.current(q))
    def kh_del(self, E, st, a, I):
        m = self.mapof(E, st, a[0])
        if m is None: return [(st, None)]
        i = self.slot_at(E, st, m, a[1])
        if i is None:
            nb = self.get(E, st, m, self.hf, 'n_buckets')
            if st.current(a[1]).sub(st.current(nb)) == Z: return [(st, None)]        # position "none": no effect
            if any(s[0] == 'no' and s[1] == st.current(a[1]) for s in self.slots(st, m)): return [(st, None)]
            self.report(E, st, 'stale-position', ('C05', 'C06', 'C08'), 'an element is removed from a hash table by a position that is not (any more) known to be its own')
            st.dead = True
            return []
        sl = list(self.slots(st, m)); x = sl[i]; sl[i] = ('out', x[2]); self.setslots(st, m, sl); self.empties(E, st, m, a[1])
        self.put(st, m, self.hf, 'size', st.current(self.get(E, st, m, self.hf, 'size')).plus(-1))
        of = og(st, m).get('of')
        if of != 'tables':
            st.g['err:keys'] = st.current((st.g.get('err:keys') or Z)).plus(1)
            if x[3] is not None: self.uncount(E, st, x[3].o)
        if x[3] is not None and x[3].__class__ is Ptr: self.event(E, st, 'unmapped', x[3].o)
        return [(st, None)]
    def uncount(self, E, st, o):
        g = og(st, o)
        if g.get('cnt'):
            ogset(st, o, cnt=False)
            dl = self.get(E, st, o, self.ef, 'data_length')
            st.g['err:size'] = st.current(st.g.get('err:size') or Z).add(dl)
    def count(self, E, st, o):
        g = og(st, o)
        if not g.get('cnt'):
            ogset(st, o, cnt=True)
            dl = self.get(E, st, o, self.ef, 'data_length')
            st.g['err:size'] = st.current(st.g.get('err:size') or Z).sub(dl)
    def vk_exist(self, E, st, a, I):
        m = self.mapof(E, st, a[0])
        if m is None: return [(st, fresh(0, 1, 'exist'))]
        k = st.current(a[1])
        for s in self.slots(st, m):
            if s[0] == 'in' and s[1].sub(k) == Z: return [(st, ONE)]
            if s[0] == 'no' and s[1] == k: return [(st, Z)]
        nb = st.current(self.get(E, st, m, self.hf, 'n_buckets'))
        inb = st.prove(k.plus(1).sub(nb)) and (st.lo(k) >= 0 or st.prove(k.mul(-1)))
        if not inb: self.report(E, st, 'slot-range', ('C06', 'C23'), 'a position beyond the end of a hash table is looked at')
        out = []
        s0 = st.copy(); self.setslots(s0, m, self.slots(s0, m) + (('no', k),)); self.empties(E, s0, m, k); out.append((s0, Z))
        # one of the known elements may be at k
        for i, s in enumerate(self.slots(st, m)):
            if s[0] == 'in' and not st.prove_ne(s[1].sub(k)):
                s1 = st.copy()
                if s1.add_eq(s1.current(s[1]).sub(k)): out.append((s1, ONE))
        if st.maps[m][0] == 'any':
            s1 = st; 
            for s in self.slots(st, m):
                if s[0] == 'in': s1.add_ne(s1.current(s[1]).sub(k))
            h = fresh(0, (1 << 32) - 1, 'hash')
            for s in self.slots(s1, m):
                if s[0] == 'out': s1.add_ne(h.sub(s1.current(s[1])))
            for s2, k2, v in self.newentry(E, s1, m, h):
                kk = s2.current(k2)
                if s2.add_eq(kk.sub(s2.current(k))): out.append((s2, ONE))
        return out
    def kh_init(self, what):
        def f(E, st, a, I):
            m = ('H', next(NOBJ), len(SYM)); st.info[m] = Info('heap', self.setrec[what], K(40), 'live', 'zero', 'kh_init in %s:%d' % (E.F.name, E.line)); st.mem[m] = {}; st.own.add(m)
            st.maps[m] = ('empty',); ogset(st, m, k='set', of='tables' if what == 'table' else None)
            return [(st, Ptr(m))]
        return f
    def kh_destroy(self, E, st, a, I):
        m = self.mapof(E, st, a[0])
        if m is None:
            if a[0].__class__ is Ptr: libc.m_free(E, st, a, I)
            return [(st, None)]
        if og(st, m).get('of') != 'tables':
            sz = st.current(self.get(E, st, m, self.hf, 'size'))
            if sz != Z and not (st.hi(sz) <= 0) and not self.emptied(E, st, m):
                self.report(E, st, 'table-freed-with-entries', ('C05', 'C06'), 'the key table of a table is freed while it may still hold entries (size %r)' % sz)
        libc.m_free(E, st, a, I)
        return [(st, None)]

    # ---- hooks of the interpreter
    event_on = False
    def event(self, E, st, *x):
        if x[0] == 'format': return
        if x[0] == 'free': self.freed(E, st, x[1]); return
        if self.event_on: st.g['ev'] = (st.g.get('ev') or ()) + (tuple(x),)
    def freed(self, E, st, o): pass
    def access(self, E, st, p, n, what):
        if p.__class__ is Ptr:
            i = st.info.get(p.o)
            if i is not None and i.status == 'freed': self.uaf(E, st, p.o, what)
    def uaf(self, E, st, o, what):
        g = og(st, o).get('k')
        nm = {'E': 'an entry', 'T': 'a table', 'key': 'a key', 'set': 'the key table of a table'}.get(g, 'memory')
        self.report(E, st, 'use-after-free', ('C06', 'C05') if g in ('E', 'T', 'key', 'set') else ('C06', 'C26'), '%s of %s after it was freed' % (what, nm))
        st.dead = True
    def badfree(self, E, st, v, e):
        self.report(E, st, 'bad-free', ('C06', 'C05', 'C26'), e); st.dead = True
    def nullderef(self, E, st, where):
        self.report(E, st, 'null-pointer', ('C06', 'C17'), 'a null pointer is followed')
    def call(self, E, st, name, args, I):
        m = self.khm.get(name) if hasattr(self, 'khm') else None
        if m is None:
            if not hasattr(self, 'khm'):
                self.khm = {}
                for n in ('entry', 'table'):
                    self.khm.update({'kh_get_' + n: self.kh_get, 'kh_put_' + n: self.kh_put, 'kh_del_' + n: self.kh_del, 'kh_init_' + n: self.kh_init(n), 'kh_destroy_' + n: self.kh_destroy})
                self.khm['vk_exist'] = self.khm['vk_exist/2'] = self.vk_exist
                m = self.khm.get(name)
            if m is None: return None
        return m(E, st, args, I)
    def soft(self, E, o, k): return True
    def materialise(self, E, st, o, off, w, t):
        if o == self.G:
            if off.__class__ is int:
                n = self.off.get(('D', off))
                if n == 'tables': return Ptr(self.tables(E, st))
                if n in ('lru_head', 'lru_tail'): return self.lru_end(E, st, n)
                if n == 'blocks_exist': return fresh(0, (1 << 31) - 1, 'blocks_exist')
                if n == 'fd_blockfile': return fresh(3, (1 << 31) - 1, 'fd_blockfile')
                if n == 'table_gc': return fresh(0, (1 << 32) - 1, 'table_gc')
            return None
        if o[0] == 'V':
            m = o[1]
            if off.__class__ is tuple: f = off[0]
            else: f = K(off // 8)
            k = E.arith(st, '/', st.current(f), K(8), 'i64')
            i = self.slot_at(E, st, m, k)
            if i is None:
                nb = st.current(self.get(E, st, m, self.hf, 'n_buckets'))
                self.report(E, st, 'stale-position', ('C05', 'C06', 'C08', 'C04'), 'the element at a position of a hash table is used where no element is known to be')
                st.dead = True; return fresh_t(t, 'stale')
            v = self.slots(st, m)[i][3]
            return v if v is not None else fresh_t(t, 'uninit')
        if o[0] == 'KK':
            m = o[1]; f = off[0] if off.__class__ is tuple else K(off // 8)
            i = self.slot_at(E, st, m, E.arith(st, '/', st.current(f), K(4), 'i64'))
            return self.slots(st, m)[i][2] if i is not None else None
        if o in st.maps:
            if off == self.hf['vals']['o']: return self.pseudo(st, ('V', o))
            if off == self.hf['keys']['o']: return self.pseudo(st, ('KK', o))
            return None
        g = st.og.get(o)
        if g:
            d = dict(g)
            if d.get('k') == 'End':
                self.settle(E, st)
                side = d['side']; st.g['lru0:' + side] = Lin(0, ((o[1], 1),)); self.put(st, self.G, self.df, side, Lin(0, ((o[1], 1),)))
                T = self.mk_table(E, st, 'full')
                self.mk_entry(E, st, T, 'complete', obj=o)
                if not self.lazy_lru: self.lru_consistent(E, st)
                v = st.mem[o].get((off, w)) if off.__class__ is int else None
                return v
            if d.get('k') == 'Nb':
                if off == self.ef['lru_' + d['side']]['o']: return d['e']
                other = 'prev' if d['side'] == 'next' else 'next'
                if off == self.ef['lru_' + other]['o']: return fresh_t('p:r:cache_entry', 'neighbour')
                if off == self.ef['writing']['o'] or off == self.ef['deleted']['o']: return Z
        return None
    def pseudo(self, st, o):
        st.info[o] = Info('ext', None, None); return Ptr(o)
    def load(self, E, st, o, off, w, t):
        pass
    def store(self, E, st, o, off, w, v, t):
        if o[0] == 'V':
            m = o[1]; f = off[0] if off.__class__ is tuple else K(off // 8)
            i = self.slot_at(E, st, m, E.arith(st, '/', st.current(f), K(8), 'i64'))
            if i is None: self.report(E, st, 'stale-position', ('C05', 'C06', 'C08'), 'an element is stored at a position of a hash table that is not known to be its own'); st.dead = True; return True
            sl = list(self.slots(st, m)); x = sl[i]
            old = x[3]
            if old is not None and old != v and og(st, m).get('of') != 'tables': self.uncount(E, st, old.o)
            sl[i] = (x[0], x[1], x[2], v); self.setslots(st, m, sl)
            if v.__class__ is Ptr and og(st, m).get('of') != 'tables':
                if 'k' not in og(st, v.o): ogset(st, v.o, k='E', o=Z, mode='new', inl=False, p0=Z, n0=Z, dl0=Z, b0=K(-2), cnt=False, path=None)
                self.count(E, st, v.o)
            elif v.__class__ is Ptr and 'k' not in og(st, v.o):
                s = self.peek(st, v.o, self.tf, 'cache_hash_set')
                ogset(st, v.o, k='T', o=Z, own0=0, name=None)
                if s is not None: ogset(st, s.o, k='set', of=v)
            return True
        if o == self.G and off.__class__ is int:
            n = self.off.get(('D', off))
            if n in ACC:
                old = st.current(self.D(E, st, n)); x = st.current(v)
                if x.one() and sid(x) in DEFS and DEFS[sid(x)][0] == 'wrap': x = st.current(DEFS[sid(x)][1][2])
                d = x.sub(old)
                key = 'err:' + {'db_size_bytes': 'size', 'db_keys': 'keys'}.get(n, n)
                st.g[key] = st.current(st.g.get(key) or Z).add(d)
                w_ = (1 << 64)
                e = st.g[key]
                if e.const and abs(e.c) >= 1 << 63: st.g[key] = K((e.c + (1 << 63)) % w_ - (1 << 63))
                return fresh(0, (1 << 64) - 1, n)
            return None
        g = st.og.get(o)
        if g and off.__class__ is int:
            d = dict(g)
            if d.get('k') == 'E' and off == self.ef['data_length']['o'] and d.get('cnt'):
                old = st.current(self.get(E, st, o, self.ef, 'data_length'))
                st.g['err:size'] = st.current(st.g.get('err:size') or Z).sub(st.current(v).sub(old))
        return None
    def recursion(self, E, st, F, args): return None

    # ---- recency list
    def lru_end(self, E, st, n):
        fld = 'p0' if n == 'lru_head' else 'n0'
        k0 = 'lru0:' + n
        v = st.g.get(k0)
        if v is None:
            for o, g in list(st.og.items()):
                d = dict(g)
                if d.get('k') == 'E' and d.get('inl') and self.null(st, d[fld]) is True: v = Ptr(o)
            if v is None:
                v = fresh_t('p:r:cache_entry', n)
                ogset(st, ('*', sid(v)), k='End', side=n)
                st.info[('*', sid(v))] = Info('ext', 'cache_entry', K(self.size['E']))
            st.g[k0] = v
            self.lru_consistent(E, st)
            v = st.current(v) if v.__class__ is Lin else v
        return v
    def null(self, st, v):
        if v.__class__ is Lin: v = st.current(v)
        if v.__class__ is Ptr: return False
        if v.__class__ is Lin:
            if v.const: return v.c == 0
            if st.prove_ne(v): return False
        return None
    def same(self, st, a, b):
        """do two pointer values denote the same object? True/False/None"""
        if a.__class__ is Lin: a = st.current(a)
        if b.__class__ is Lin: b = st.current(b)
        def obj(x):
            if x.__class__ is Ptr: return x.o if x.f == Z else None
            if x.one() : return ('*', sid(x))
            return None
        if a.__class__ is Lin and a.const or b.__class__ is Lin and b.const:
            if a.__class__ is Lin and b.__class__ is Lin and a.const and b.const: return a.c == b.c
            x = b if (a.__class__ is Lin and a.const) else a
            n = self.null(st, x)
            return None if n is None else n
        oa, ob = obj(a), obj(b)
        if oa is None or ob is None: return None
        if oa == ob: return True
        if oa[0] != '*' and ob[0] != '*': return False
        if a.__class__ is Lin and b.__class__ is Lin:
            return False if st.prove_ne(a.sub(b)) else None
        l, p = (a, b) if a.__class__ is Lin else (b, a)
        if l.__class__ is Ptr: return None     # two objects reached in different ways
        for x in st.ne:
            pass
        return None
    def lru_consistent(self, E, st):
        """relations between the ends of the list and the links of the entries met, as it was at first"""
        for n, fld in (('lru_head', 'p0'), ('lru_tail', 'n0')):
            hv = st.g.get('lru0:' + n)
            if hv is None: continue
            for o, g in list(st.og.items()):
                d = dict(g)
                if d.get('k') != 'E' or not d.get('inl'): continue
                hv = st.g.get('lru0:' + n)
                if hv.__class__ is Lin: hv = st.current(hv)
                p = d[fld]
                if self.null(st, hv) is True: return False
                pn = self.null(st, p); is_ = self.same(st, hv, Ptr(o))
                if is_ is True:
                    if pn is False: return False
                    if pn is None and not st.add_eq(st.current(p)): return False
                elif is_ is False:
                    if pn is True: return False
                    if pn is None and not st.add_ne(st.current(p)): return False
                else:
                    if pn is True and hv.__class__ is Lin and hv.one():
                        if not st.subst(sid(hv), Ptr(o)): return False
                    elif pn is False: self.apart(st, hv, o)
        h, t = st.g.get('lru0:lru_head'), st.g.get('lru0:lru_tail')
        if h is not None and t is not None:
            hn, tn = self.null(st, h), self.null(st, t)
            if hn is not None and tn is None: return st.add_eq(st.current(t)) if hn else st.add_ne(st.current(t))
            if tn is not None and hn is None: return st.add_eq(st.current(h)) if tn else st.add_ne(st.current(h))
            if hn is not None and tn is not None and hn != tn: return False
        return True
    def apart(self, st, v, o):
        a = st.g.get('apart') or ()
        if (v, o) not in a and len(a) < 8: st.g['apart'] = a + ((v, ('o',) + o),)
    def unrelated(self, E, st, s, o):
        for v, x in st.g.get('apart') or ():
            if v.__class__ is Lin and v.one() and sid(v) == s and x[1:] == o: return True
        return False
    def assumed(self, E, st, a, b):
        if self.lazy_lru: return True
        if any(k[:5] == 'lru0:' for k in st.g) and (a.__class__ is Ptr or b.__class__ is Ptr or (a.__class__ is Lin and a.one() and SYM[sid(a)][1] > 1 << 40) or (b.__class__ is Lin and b.one() and SYM[sid(b)][1] > 1 << 40)):
            return self.lru_consistent(E, st)
        return True
    def cell(self, st, o, fld):
        return cellof(st, o, (self.ef[fld]['o'], self.ef[fld]['w']))
    def flag(self, st, o, fld):
        v = self.cell(st, o, fld)
        if v.__class__ is Lin: v = st.current(v)
        return v.c if v.__class__ is Lin and v.const else None
    def pobj(self, st, v):
        """object behind a pointer value"""
        if v.__class__ is Lin: v = st.current(v)
        if v.__class__ is Ptr: return v.o
        return ('*', sid(v)) if v.one() else None
    def lru_links(self, st):
        """current links that are known, and the initial ones: {(object or end, field): (initial, now)}"""
        out = {}
        for n in ('lru_head', 'lru_tail'):
            v0 = st.g.get('lru0:' + n); v = self.peek(st, self.G, self.df, n)
            out[n] = (v0, v if v is not None else v0)
        for o, g in st.og.items():
            d = dict(g)
            if d.get('k') == 'E':
                for f, i in (('lru_prev', 'p0'), ('lru_next', 'n0')): out[o, f] = (d[i], self.cell(st, o, f) if self.cell(st, o, f) is not None else d[i])
            elif d.get('k') == 'Nb':
                f = 'lru_' + d['side']; v = self.cell(st, o, f)
                out[o, f] = (d['e'], v if v is not None else d['e'])
        return out
    def settle(self, E, st, hit=None):
        """the list after an operation: every entry is in it exactly when it should be, the order is kept"""
        if self.lazy_lru or st.dead: return
        ents = [(o, dict(g)) for o, g in st.og.items() if dict(g).get('k') == 'E']
        ops = []
        for o, d in ents:
            w, de = self.flag(st, o, 'writing'), self.flag(st, o, 'deleted')
            if st.info[o].status == 'freed': should = False
            elif d['mode'] == 'new' and not d.get('cnt') : continue
            elif w is None or de is None: continue
            else: should = not w and not de
            if d['inl'] and not should: ops.append(('remove', o))
            elif not d['inl'] and should: ops.append(('append', o))
            elif hit is not None and o == hit: ops.append(('move', o))
        self.ob('recency list operations', len(ops))
        if len(ops) > 1: return
        # cases: is the entry first/last?
        cases = [st]
        if ops:
            o = ops[0][1]; d = dict(st.og[o])
            for v in ([d['p0'], d['n0']] if d['inl'] else []) + [st.g.get('lru0:lru_tail'), st.g.get('lru0:lru_head')]:
                nc = []
                for s in cases:
                    if v is None or self.null(s, v) is not None: nc.append(s); continue
                    a, b = s.copy(), s.copy(); vv = s.current(v)
                    if a.add_eq(vv) and self.lru_consistent(E, a): nc.append(a)
                    if b.add_ne(vv) and self.lru_consistent(E, b): nc.append(b)
                cases = nc
        for s in cases:
            e = self.lru_case(E, s, ops[0] if ops else None)
            if e: self.report(E, st, 'recency-list', ('C09',) + (('C05',) if ops and ops[0][0] == 'remove' else ()) + (('C06',) if ops and ops[0][0] == 'remove' else ()), e); break
        # start afresh for the next operation
        for n in ('lru_head', 'lru_tail'):
            st.cells(self.G).pop((self.df[n]['o'], self.df[n]['w']), None); st.g.pop('lru0:' + n, None)
        st.g.pop('apart', None)
        for o, d in ents:
            w, de = self.flag(st, o, 'writing'), self.flag(st, o, 'deleted')
            inl = st.info[o].status != 'freed' and w == 0 and de == 0 and not (d['mode'] == 'new' and not d.get('cnt'))
            if inl:
                p, n = fresh_t('p:r:cache_entry', 'prev'), fresh_t('p:r:cache_entry', 'next')
                ogset(st, o, inl=True, p0=p, n0=n)
                for v, sd in ((p, 'next'), (n, 'prev')):
                    ogset(st, ('*', sid(v)), k='Nb', e=Ptr(o), side=sd); st.info[('*', sid(v))] = Info('ext', 'cache_entry', K(self.size['E']))
            else: p, n = Z, Z; ogset(st, o, inl=False, p0=Z, n0=Z)
            if st.info[o].status != 'freed':
                self.put(st, o, self.ef, 'lru_prev', p); self.put(st, o, self.ef, 'lru_next', n)
        self.lru_consistent(E, st)
    def lru_case(self, E, st, op):
        L = self.lru_links(st)
        exp = {}
        def final(k): return exp.get(k, L[k][0] if k in L else None)
        what = {None: 'the recency list changes although no entry enters or leaves it', 'remove': 'an entry that is removed is not taken out of the recency list correctly',
                'append': 'an entry that became complete is not appended at the most recent end of the recency list', 'move': 'an entry that was used is not moved to the most recent end of the recency list'}[op[0] if op else None]
        alt = None
        if op:
            k, o = op; d = dict(st.og[o]); p0, n0 = d['p0'], d['n0']
            if k in ('remove', 'move'):
                if self.null(st, p0): exp['lru_head'] = n0
                else: exp[self.pobj(st, p0), 'lru_next'] = n0
                if self.null(st, n0): exp['lru_tail'] = p0
                else: exp[self.pobj(st, n0), 'lru_prev'] = p0
                if k == 'move' and self.null(st, n0): alt = {}
            if k in ('append', 'move'):
                last = exp.get('lru_tail', st.g.get('lru0:lru_tail'))
                if last is None: return what + ' (the most recent end is not looked at)'
                if self.null(st, last): exp['lru_head'] = Ptr(o)
                else: exp[self.pobj(st, last), 'lru_next'] = Ptr(o)
                exp[o, 'lru_prev'] = last; exp[o, 'lru_next'] = Z; exp['lru_tail'] = Ptr(o)
        bad = None
        for e in ([exp] if alt is None else [alt, exp]):
            bad = None
            for k in set(L) | set(e):
                if k.__class__ is tuple and op and op[0] == 'remove' and k[0] == op[1]: continue
                if k.__class__ is tuple:
                    if dict(st.og.get(k[0], ())).get('mode') == 'new' and k not in e: continue
                    now = self.cell(st, k[0], k[1])
                    if now is None: now = L[k][0] if k in L else None
                else:
                    now = self.peek(st, self.G, self.df, k)
                    if now is None: now = st.g.get('lru0:' + k)
                want = e[k] if k in e else L[k][0]
                if want is None and now is None: continue
                if want is None or now is None: bad = k; break
                r = self.same(st, want, now)
                if r is True: continue
                bad = k; break
            if bad is None: return None
        nm = bad if bad.__class__ is str else '%s of %s' % (bad[1], 'the entry' if op and bad[0] == op[1] else 'a neighbour')
        first = op and dict(st.og[op[1]])['inl'] and self.null(st, dict(st.og[op[1]])['p0']); last = op and dict(st.og[op[1]])['inl'] and self.null(st, dict(st.og[op[1]])['n0'])
        pos = '' if not op or not dict(st.og[op[1]])['inl'] else ' (entry was %s)' % ('the only one' if first and last else 'the least recent' if first else 'the most recent' if last else 'in the middle')
        return '%s: %s is wrong%s' % (what, nm, pos)
