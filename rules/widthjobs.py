"""How wide sizes and offsets are computed: an interprocedural dataflow over the types of the resolved program.
A value carries where it comes from: 'off' an offset into a file, 'tot' the size of the database or its limit, 'num' a number read from text,
'p32' a product computed in 32 bits or less, 'n32' a number read into 32 bits, 'nl' a difference of offsets cut to less than 31 bits."""
from jobs import job
import prog
from flow import *
from flowjobs import flow, Rep, const

TOT = {('f', 'db_details', 'db_size_bytes'): 'the size of the database', ('f', 'scache_settings', 'max_size'): 'the size limit'}
OFF = {'ftruncate': (1,), 'truncate': (1,), 'lseek': (1,), 'pread': (3,), 'pwrite': (3,), 'preadv': (3,), 'pwritev': (3,), 'posix_fallocate': (1, 2), 'fallocate': (2, 3), 'mmap': (5,),
       'sendfile': (2,), 'readahead': (1,), 'posix_fadvise': (1, 2), 'sync_file_range': (1, 2), 'splice': (1, 3), 'copy_file_range': (1, 3), 'fseeko': (1,)}
LEN = {'sendfile': 3, 'pread': 2, 'pwrite': 2, 'mmap': 1, 'ftruncate': 1, 'posix_fallocate': 2, 'copy_file_range': 4, 'splice': 4}
WIDE = {'atol', 'atoll', 'strtol', 'strtoll', 'strtoul', 'strtoull', 'strtoimax', 'strtoumax', '__isoc23_strtol', '__isoc23_strtoll', '__isoc23_strtoul', '__isoc23_strtoull'}
base = lambda n: n[:-2] if n.endswith('64') else n
def bits(t):
    if t.__class__ is not str: return 64
    if t[:1] in 'iuf' and t[1:].isdigit(): return int(t[1:])
    if t == 'b': return 1
    if t[:1] == 'e': return 32
    return 64
def name(x): return {'off': 'an offset into a file'}.get(x, 'the size of the database or its limit')

class Width:
    def __init__(self, fl, R):
        self.fl = fl; self.R = R; self.k = {}; self.report = False
        for t in TOT: self.k[t] = {'tot'}
        n = -1
        while n != self.size(): n = self.size(); self.sweep()
        self.report = True; self.sweep()
    def size(self): return sum(len(s) for s in self.k.values())
    def add(self, key, s):
        if key is not None and s: self.k.setdefault(key, set()).update(s)
    def key(self, k, lv):
        if lv[0] == 'v': return lv[1] if lv[1][:2] == 'g:' else (k, lv[1])
        if lv[0] == '.' and len(lv) > 6: return ('f', lv[5], lv[6])
        if lv[0] == '*':
            p = lv[1]
            while p[0] in ('c', 'padd'): p = p[2] if p[0] == 'c' else p[1]
            if p[0] == '&': return self.key(k, p[1])
            if p[0] == 'L':
                q = self.key(k, p[1]); return ('d',) + (q if q.__class__ is tuple else (q,)) if q else None
        return None
    def flag(self, k, l, rule, msg):
        if self.report: self.R.at(rule, ['C15'], k, l, msg)
    def ev(self, k, e, l):
        t = e[0]
        if t == 'L':
            q = self.key(k, e[1]); s = self.k.get(q, set())
            if q in TOT and bits(e[2]) < 64: self.flag(k, l, 'held', '%s is held in %d bits' % (TOT[q], bits(e[2])))
            return s if bits(e[2]) >= 64 else s - {'off', 'tot', 'num', 'len'}
        if t == 'c':
            s = self.ev(k, e[2], l)
            if e[1] in ('IntegralToBoolean',) or e[3] == 'b': return set()
            if len(e) < 5: return s
            to, fr = bits(e[3]), bits(e[4])
            if to < fr and e[3][:1] in 'iue' and fr == 64:
                if self.report: self.R.ob('conversions to a narrower type')
                w = s & {'off', 'tot'}
                for x in w: self.flag(k, l, 'narrowed', '%s passes through a type of %d bits' % (name(x), to))
                r = s - {'off', 'tot', 'num', 'len'}
                if 'num' in s: r = r | {'n32'}
                if 'len' in s and e[2][0] == 'b' and e[2][1] == '-' and to < 31: r = r | {'nl'}
                return r
            return s
        if t == 'b':
            a, b = self.ev(k, e[2], l), self.ev(k, e[3], l); op, ty = e[1], e[4] if len(e) > 4 else 'i64'
            ca, cb = const(e[2]), const(e[3]); big = lambda c: c is not None and abs(c) >= (8 if op == '<<' else 256)
            scaled = op == '*' and (big(ca) or big(cb)) and not (ca is not None and cb is not None) or op == '<<' and big(cb) and ca is None
            if scaled and self.report: self.R.ob('values scaled by a large number')
            if op in ('/', '>>', '%', '&', '^', '|'):
                if op == '/' and cb is not None and abs(cb) < 256 or op == '>>' and cb is not None and cb < 8: return a
                return set() if op in ('/', '>>', '%', '&') else a | b
            if bits(ty) >= 64:
                if op == '-' and 'off' in a and 'off' in b and 'tot' not in a | b: return (a | b) - {'off', 'nl'} | {'len'}
                return (a | b) - {'nl'} | ({'off'} if scaled else set())
            return (a | b) - {'nl'} | ({'p32'} if scaled else set())
        if t == 'u': return self.ev(k, e[2], l) if e[1] != '!' else set()
        if t == 'uf':
            s = self.ev(k, e[2], l)
            if len(e) > 3 and bits(e[3]) == 32 and e[3][:1] == 'f' and e[1] == 'IntegralToFloating' and s & {'off', 'tot'}: self.flag(k, l, 'narrowed', '%s passes through a type of 32 bits' % name(min(s & {'off', 'tot'})))
            return s
        if t == 'uf2': return self.ev(k, e[2], l) | self.ev(k, e[3], l)
        if t == 'cmp':
            self.ev(k, e[2], l); self.ev(k, e[3], l); return set()
        if t == '*' or t == '.': return set()
        return set()
    def sink(self, k, l, s, what, num=False):
        self.R.ob('offsets, lengths and sizes that reach their use')
        if 'p32' in s: self.flag(k, l, 'product', '%s is a product computed in 32 bits or less' % what)
        if num and 'n32' in s: self.flag(k, l, 'number', '%s passes through a type of 32 bits' % what)
    def sweep(self):
        fl = self.fl
        for k, F in fl.F.items():
            for b, (ins, t) in enumerate(F.blocks):
                if b not in fl.reach[k]: continue
                for I in ins:
                    if I[0] == 'S':
                        s = self.ev(k, I[2], I[4]); q = self.key(k, I[1]); w = bits(I[3])
                        if q in TOT:
                            if w < 64: self.flag(k, I[4], 'held', '%s is held in %d bits' % (TOT[q], w))
                            if self.report: self.R.fns.add(k); self.sink(k, I[4], s, TOT[q], True)
                        self.add(q, s if w >= 64 else s - {'off', 'tot', 'num', 'len'})
                    elif I[0] == 'C': self.call(k, I)
                if t and t[0] == 'B': self.ev(k, t[1], t[4] if len(t) > 4 else F.line)
                if t and t[0] == 'R' and t[1] is not None: self.add(('ret', k), self.ev(k, t[1], t[2]))
    def call(self, k, I):
        fl = self.fl; l = I[6]; ts = fl.targets(I); n = base(I[2]) if I[2] else ''
        args = [self.ev(k, a, l) for a in I[4]]
        if ts:
            for t in ts:
                G = fl.F[t]
                for p, a, s in zip(G.params, I[4], args):
                    p = p if p.__class__ is str else p[0]; self.add((t, p), s)
                    x = a
                    while x[0] == 'c': x = x[2]
                    if x[0] == '&':
                        q = self.key(k, x[1]); d = ('d', t, p)
                        if q is not None: self.add(d, self.k.get(q, set())); self.add(q, self.k.get(d, set()))
                    elif x[0] == 'L':
                        q = self.key(k, x[1])
                        if q is not None:
                            q = ('d',) + (q if q.__class__ is tuple else (q,)); d = ('d', t, p)
                            self.add(d, self.k.get(q, set())); self.add(q, self.k.get(d, set()))
                if I[1]: self.add((k, I[1]), self.k.get(('ret', t), set()))
            return
        if I[1]:
            if n in ('lseek', 'ftello'): self.add((k, I[1]), {'off'})
            elif I[2] in WIDE: self.add((k, I[1]), {'num'})
            elif I[2] == 'atoi': self.add((k, I[1]), {'n32'})
        if n in OFF:
            if self.report: self.R.fns.add(k)
            for i in OFF[n]:
                if i >= len(I[4]): continue
                x = I[4][i]
                while x[0] == 'c': x = x[2]
                s = args[i]
                if x[0] == '&': s = self.k.get(self.key(k, x[1]), set()); self.add(self.key(k, x[1]), {'off'})
                if self.report: self.sink(k, l, s, 'the offset or length given to %s' % I[2])
        if n in LEN and LEN[n] < len(I[4]):
            s = args[LEN[n]]
            if self.report: self.R.ob('lengths given to file calls')
            if 'nl' in s: self.flag(k, l, 'length', 'the length given to %s was cut to less than 31 bits' % I[2])
def c15(P):
    fl = flow(P); R = Rep(fl, 'every computation on sizes and offsets')
    W = Width(fl, R)
    seen = {q for q in TOT if any(True for k in fl.F for ins, t in fl.F[k].blocks for I in ins if I[0] == 'S' and W.key(k, I[1]) == q)}
    if not seen: raise prog.AnalysisBroken('the size of the database is not found')
    if not any('off' in s for s in W.k.values()): raise prog.AnalysisBroken('no offset is computed anywhere')
    R.samples = ['%s: %s' % (q, sorted(s)) for q, s in sorted(W.k.items(), key=str) if s & {'off', 'tot', 'num'}][:12]
    return R.result()
job('flow.widths', c15, ('C15',), 60, 1)
