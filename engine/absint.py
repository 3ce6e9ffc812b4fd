"""Path-sensitive abstract interpretation (dataflow over the control-flow graphs of prog.py) with
disjunctive abstract states, in the style of property simulation: a state holds, per memory cell, a
linear form over abstract values, together with an interval per abstract value and a set of linear
inequalities between them; pointers are (abstract object, offset).  Procedures are analysed in the
calling state (context sensitive), loops by fixpoint with widening to parametrised affine relations,
and equal states are merged at every join.  No path condition is collected for a solver: conditions
refine intervals and relations, and a branch is dropped when the refinement is empty."""
import heapq, itertools, sys, time
sys.setrecursionlimit(20000)
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from prog import trange, AnalysisBroken

INF = 1 << 80
DEBUG = False

class Lin:
    __slots__ = ('c', 't', 'h')
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o or (o.__class__ is Lin and self.h == o.h and self.c == o.c and self.t == o.t)
    def __ne__(self, o): return not self == o
    def __repr__(self):
        s = '+'.join(('%d*' % k if k != 1 else '') + 's%d' % v for v, k in self.t)
        return s + ('%+d' % self.c if s and self.c else '' if s else str(self.c))
    def add(self, o, k=1):
        if not o.t: return Lin(self.c + k * o.c, self.t)
        if not self.t and k == 1: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, q in o.t:
            n = d.get(s, 0) + k * q
            if n: d[s] = n
            else: d.pop(s, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))
    def sub(self, o): return self.add(o, -1)
    def mul(self, k):
        if k == 0: return Z
        if k == 1: return self
        return Lin(self.c * k, tuple((s, q * k) for s, q in self.t))
    def plus(self, n): return Lin(self.c + n, self.t) if n else self
    @property
    def const(self): return not self.t
    def one(self): return len(self.t) == 1 and self.t[0][1] == 1 and self.c == 0

class Ptr:
    __slots__ = ('o', 'f')
    def __init__(self, o, f=None): self.o = o; self.f = f if f is not None else Z
    def __hash__(self): return hash((self.o, self.f))
    def __eq__(self, x): return x.__class__ is Ptr and self.o == x.o and self.f == x.f
    def __ne__(self, x): return not self == x
    def __repr__(self): return '&%s%s' % (oname(self.o), '' if self.f == Z else '+' + repr(self.f))

class Fnp:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __hash__(self): return hash(self.n)
    def __eq__(self, x): return x.__class__ is Fnp and self.n == x.n
    def __ne__(self, x): return not self == x
    def __repr__(self): return 'fn:' + self.n

def oname(o): return ':'.join(str(x) for x in o) if isinstance(o, tuple) else str(o)
Z = Lin(0); ONE = Lin(1); MONE = Lin(-1)
_K = {}
def K(n):
    r = _K.get(n)
    if r is None: r = _K[n] = Lin(n)
    return r

# ---- abstract values (symbols): immutable, numbered in order of creation
SYM = []      # id -> (lo, hi, descr)
DEFS = {}     # id -> (op, args)
HC = {}       # (op, args) -> id
def fresh(lo=-INF, hi=INF, d=''):
    SYM.append((lo, hi, d)); return Lin(0, ((len(SYM) - 1, 1),))
def fresh_t(t, d=''):
    r = trange(t) if t else None
    return fresh(r[0], r[1], d) if r else fresh(d=d)
def uninterp(op, args, lo=-INF, hi=INF):
    k = (op, args); s = HC.get(k)
    if s is None:
        SYM.append((lo, hi, op)); s = HC[k] = len(SYM) - 1; DEFS[s] = k
    return Lin(0, ((s, 1),))
def sid(l): return l.t[0][0]

class Info:
    """what is known of an abstract object (immutable)"""
    __slots__ = ('kind', 'type', 'size', 'status', 'default', 'site')
    def __init__(self, kind, type, size, status='live', default='lazy', site=None):
        self.kind = kind; self.type = type; self.size = size; self.status = status; self.default = default; self.site = site
    def upd(self, **k):
        n = Info(self.kind, self.type, self.size, self.status, self.default, self.site)
        for a, b in k.items(): setattr(n, a, b)
        return n
    def key(self): return (self.kind, self.type, self.status, self.default)

class State:
    __slots__ = ('mem', 'own', 'info', 'frames', 'itv', 'facts', 'ne', 'g', 'maps', 'og', 'trace', 'sub', 'dead')
    def __init__(self):
        self.mem = {}; self.own = set(); self.info = {}; self.frames = []; self.itv = {}; self.facts = (); self.ne = ()
        self.g = {}; self.maps = {}; self.og = {}; self.trace = None; self.sub = (); self.dead = False
    def copy(self):
        n = State.__new__(State)
        n.mem = dict(self.mem); self.own = set(); n.own = set(); n.info = dict(self.info)
        n.frames = [dict(f) for f in self.frames]; n.itv = dict(self.itv); n.facts = self.facts; n.ne = self.ne
        n.g = dict(self.g); n.maps = dict(self.maps); n.og = dict(self.og); n.trace = self.trace; n.sub = self.sub; n.dead = False
        return n
    def cells(self, o):
        """writable cell dictionary of object o"""
        c = self.mem.get(o)
        if c is None: c = self.mem[o] = {}; self.own.add(o)
        elif o not in self.own: c = self.mem[o] = dict(c); self.own.add(o)
        return c
    def note(self, *x): self.trace = (self.trace, x)
    # intervals
    def rng(self, s):
        r = self.itv.get(s)
        if r is None: r = SYM[s][:2]
        return r
    def bounds(self, l):
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.rng(s)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return lo, hi
    def hi(self, l):
        h = l.c
        for s, k in l.t:
            a, b = self.rng(s); h += k * (b if k > 0 else a)
        return h
    def lo(self, l):
        h = l.c
        for s, k in l.t:
            a, b = self.rng(s); h += k * (a if k > 0 else b)
        return h
    def prove(self, l, depth=3):
        """l <= 0 in every concrete state described?"""
        if self.hi(l) <= 0: return True
        if depth == 0 or not self.facts: return False
        if depth == 3 and len(self.facts) > 24: depth = 2
        for s, k in l.t:
            for f in self.facts:
                for fs, fk in f.t:
                    if fs == s:
                        if (fk > 0) == (k > 0) and len(f.t) > 1:
                            r = l.mul(abs(fk)).add(f, -abs(k))
                            if len(r.t) <= 4 and self.prove(r, depth - 1): return True
                        break
        return False
    def prove_ne(self, l):
        if l.const: return l.c != 0
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0: return True
        for n in self.ne:
            if n == l or n.mul(-1) == l: return True
        return self.prove(l.plus(1)) or self.prove(l.mul(-1).plus(1))
    def add_le(self, l):
        """assume l <= 0; False if that is impossible"""
        if l.const: return l.c <= 0
        lo, hi = self.bounds(l)
        if lo > 0: return False
        if hi <= 0: return True
        if self.prove(l.mul(-1).plus(1)): return False
        if len(l.t) == 1:
            s, k = l.t[0]; a, b = self.rng(s)
            if k > 0: b = min(b, (-l.c) // k)
            else: a = max(a, -((-l.c) // (-k)) if False else -(l.c // k) if l.c % k == 0 else ceil_div(l.c, -k))
            if a > b: return False
            if a == b: return self.subst(s, K(a))
            self.itv[s] = (a, b)
            for n in self.ne:
                if len(n.t) == 1 and n.t[0][0] == s and abs(n.t[0][1]) == 1:
                    v = -n.c * n.t[0][1]
                    if v == a: 
                        return self.add_le(Lin(a + 1, ((s, -1),)))
                    if v == b:
                        return self.add_le(Lin(-(b - 1), ((s, 1),)))
            return True
        # tighten the intervals of the symbols involved
        for s, k in l.t:
            rest_lo = lo - (k * self.rng(s)[0] if k > 0 else k * self.rng(s)[1])
            if rest_lo <= -INF // 2: continue
            a, b = self.rng(s)
            if k > 0: nb = (-rest_lo) // k; b = min(b, nb)
            else: na = ceil_div(rest_lo, -k); a = max(a, na)
            if a > b: return False
            if (a, b) != self.rng(s): self.itv[s] = (a, b)
        if not self.prove(l, 2): self.facts = self.facts + (l,)
        # an equality that is forced
        if self.prove(l.mul(-1), 2): return self.add_eq(l)
        return True
    def add_eq(self, l):
        if l.const: return l.c == 0
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0: return False
        for n in self.ne:
            if n == l or n.mul(-1) == l: return False
        best = None
        for s, k in l.t:
            if abs(k) == 1 and (best is None or self.pref(s) > self.pref(best[0])): best = (s, k)
        if best is None:
            if not self.add_le_raw(l) or not self.add_le_raw(l.mul(-1)): return False
            return True
        s, k = best
        e = Lin(l.c, tuple(x for x in l.t if x[0] != s)).mul(-k)
        return self.subst(s, e)
    def pref(self, s):
        # which symbol to eliminate: prefer derived and young ones
        return (s in DEFS, s)
    def add_le_raw(self, l):
        if self.lo(l) > 0: return False
        self.facts = self.facts + (l,); return True
    def add_ne(self, l):
        if l.const: return l.c != 0
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0: return True
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            s, k = l.t[0]; v = -l.c * k; a, b = self.rng(s)
            if v == a: return self.add_le(Lin(a + 1, ((s, -1),)))
            if v == b: return self.add_le(Lin(-(b - 1), ((s, 1),)))
        if self.prove(l): return self.add_le(l.plus(1))
        m = l.mul(-1)
        if self.prove(m): return self.add_le(m.plus(1))
        if l not in self.ne and m not in self.ne: self.ne = self.ne + (l,)
        return True
    def subst(self, s, e):
        """symbol s equals e from now on"""
        if e.__class__ is Lin:
            a, b = self.rng(s)
        def lin(l):
            for q, k in l.t:
                if q == s:
                    return Lin(l.c, tuple(x for x in l.t if x[0] != s)).add(e, k) if e.__class__ is Lin else (e if l.one() else (Ptr(e.o, e.f.plus(l.c)) if k == 1 and len(l.t) == 1 else l))
            return l
        def val(v):
            c = v.__class__
            if c is Lin: return lin(v)
            if c is Ptr:
                f = lin(v.f)
                return v if f is v.f else (Ptr(v.o, f) if f.__class__ is Lin else v)
            if c is tuple:
                n = tuple([val(x) for x in v])
                return n
            return v
        for o, c in list(self.mem.items()):
            ch = None
            for k, v in c.items():
                n = val(v)
                if k[0] == 's':
                    nk = ('s', lin(k[1])) + k[2:] 
                else: nk = k
                if n is not v or nk is not k and nk != k:
                    if ch is None: ch = dict(c)
                    if nk != k:
                        ch.pop(k, None)
                        if nk[1].__class__ is not Lin: continue
                        if nk[1].const: nk = (nk[1].c * 8 + nk[2], nk[3])
                    ch[nk] = n
            if ch is not None: self.mem[o] = ch; self.own.add(o)
        for f in self.frames:
            for k, v in f.items():
                n = val(v)
                if n is not v: f[k] = n
        for d in (self.g, self.maps, self.og):
            for k, v in d.items():
                if v.__class__ in (tuple, Lin, Ptr): 
                    n = val(v)
                    if n != v: d[k] = n
        for k, v in list(self.info.items()):
            if v.size.__class__ is Lin and v.size.t:
                n = lin(v.size)
                if n is not v.size and n.__class__ is Lin: self.info[k] = v.upd(size=n)
        self.sub = self.sub + ((s, e),)
        if e.__class__ is not Lin:
            self.itv.pop(s, None)
            self.facts = tuple(f for f in self.facts if all(q != s for q, _ in f.t)); 
            ok = True
            nn = []
            for f in self.ne:
                if any(q == s for q, _ in f.t):
                    continue
                nn.append(f)
            self.ne = tuple(nn)
            return ok
        itv = self.itv; itv.pop(s, None)
        of = self.facts; on = self.ne
        self.facts = tuple(f for f in of if all(q != s for q, _ in f.t)); self.ne = tuple(f for f in on if all(q != s for q, _ in f.t))
        # interval of s becomes a constraint on e
        if e.const:
            if not (a <= e.c <= b): return False
        else:
            if a > -INF and not self.add_le(K(a).sub(e)): return False
            if b < INF and not self.add_le(e.plus(-b)): return False
        for f in of:
            if any(q == s for q, _ in f.t):
                if not self.add_le(self.app(lin(f))): return False
        for f in on:
            if any(q == s for q, _ in f.t):
                if not self.add_ne(self.app(lin(f))): return False
        return True
    def app(self, l):
        return l
    def current(self, v):
        """value v as known now (after the equalities assumed since)"""
        if v.__class__ is Lin and v.t:
            d = dict(self.sub)
            n = 0
            while v.__class__ is Lin and any(s in d for s, _ in v.t) and n < 50:
                n += 1
                for s, k in v.t:
                    if s in d:
                        e = d[s]
                        if e.__class__ is Lin: v = Lin(v.c, tuple(x for x in v.t if x[0] != s)).add(e, k)
                        elif v.one(): v = e
                        else: return v
                        break
        return v
    def mkobj(self, o, info):
        self.info[o] = info; return o

def ceil_div(a, b): return -((-a) // b)

class Budget(Exception): pass

NOBJ = itertools.count(1)

class Hooks:
    """what a rule set adds to the interpretation; every method may be overridden"""
    def materialise(self, E, st, o, off, w, t): return None
    def call(self, E, st, name, args, ins): return None
    def load(self, E, st, o, off, w, ins): pass
    def store(self, E, st, o, off, w, v, ins): pass
    def uaf(self, E, st, o, what): pass
    def nullderef(self, E, st, what): pass
    def oob(self, E, st, o, off, size, what): pass
    def wildcall(self, E, st, v, args, ins): raise AnalysisBroken('indirect call not resolved at %s' % E.where())
    def recursion(self, E, st, F, args): raise AnalysisBroken('recursion not handled: ' + F.key)
    def entered(self, E, st, F, args): pass
    def returned(self, E, st, F, ret): pass
    def assigned(self, E, st, v): return v
    def alias(self, p): return p
    def overflow(self, E, st, l, t): pass
    softcells = (); hardobjs = ()
    def merge_returns(self, E, F): return False
    def soft(self, E, o, k): return True
    def assumed(self, E, st, a, b): return True
    def access(self, E, st, p, n, what): pass
    def badfree(self, E, st, v, e): pass

class Engine:
    def __init__(self, prog, hooks, budget=600):
        self.p = prog; self.h = hooks; self.models = {}; self.stack = []; self.F = None; self.ins = None; self.line = 0
        self.t0 = time.time(); self.budget = budget; self.steps = 0; self.fns = {}; self.calls = 0; self.joins = 0; self.paths = 0
        self.fid = 0; self.unroll = 0; self.maxhead = 400; self.alts = 2; self.nmax = 60; self.exact = 24; self.branches = set(); self.maxdisj = 0; self.widenings = 0
        self.reports = []
    def where(self):
        return '%s:%s (%s)' % (self.F.file, self.line, self.F.name) if self.F else '?'

    # ---- values
    def wrap(self, st, l, t):
        """l converted to integer type t"""
        r = trange(t)
        if r is None or l.__class__ is not Lin: return l
        if l.const:
            if r[0] <= l.c <= r[1]: return l
            w = (r[1] - r[0]).bit_length(); v = l.c & ((1 << w) - 1)
            if t == 'b': return K(1 if l.c else 0)
            if r[0] < 0 and v > r[1]: v -= 1 << w
            return K(v)
        lo, hi = st.bounds(l)
        if lo >= r[0] and hi <= r[1]: return l
        if t[0] == 'p' or t[0] == 'R': return l
        # modular terms of at least this width may be unfolded
        w = (r[1] - r[0]).bit_length()
        x = l; n = 0
        while n < 8:
            n += 1; hit = False
            for s, k in x.t:
                d = DEFS.get(s)
                if d and d[0] == 'wrap' and d[1][0] >= w:
                    x = Lin(x.c, tuple(y for y in x.t if y[0] != s)).add(d[1][2], k); hit = True; break
            if not hit: break
        x = st.current(x)
        if x.__class__ is not Lin: return l
        for y in (x, l) if x != l else (l,):
            lo, hi = st.bounds(y)
            if lo >= r[0] and hi <= r[1]: return y
            if (lo >= r[0] or st.prove(K(r[0]).sub(y))) and (hi <= r[1] or st.prove(y.plus(-r[1]))): return y
        if x.const: return self.wrap(st, x, t)
        # normalise the constant so that equal residues get equal names
        m = 1 << w
        x = Lin(x.c % m if abs(x.c) >= m else x.c, x.t)
        x = uninterp('wrap', (w, r[0] < 0, x), r[0], r[1])
        if st.sub:
            y = st.current(x)
            if y.__class__ is Lin: return y
        return x
    def arith(self, st, op, a, b, t):
        r = trange(t)
        if a.__class__ is not Lin or b.__class__ is not Lin:
            if a.__class__ is Ptr and b.__class__ is Lin and op in '+-': return Ptr(a.o, a.f.add(b, 1 if op == '+' else -1))
            return fresh_t(t, 'ptr-arith')
        if op == '+': x = a.add(b)
        elif op == '-': x = a.sub(b)
        elif op == '*':
            if a.const: x = b.mul(a.c)
            elif b.const: x = a.mul(b.c)
            else:
                (la, ha), (lb, hb) = st.bounds(a), st.bounds(b); p = [la * lb, la * hb, ha * lb, ha * hb]
                x = uninterp('mul', (a, b) if hash(a) <= hash(b) else (b, a), max(min(p), -INF), min(max(p), INF))
        elif op in ('/', '%'):
            if a.const and b.const:
                if b.c == 0: return fresh_t(t)
                q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                x = K(q if op == '/' else a.c - q * b.c)
            elif b.const and b.c > 0:
                lo, hi = st.bounds(a)
                if op == '/':
                    # division of a value known to be a multiple
                    if all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0: return Lin(a.c // b.c, tuple((s, k // b.c) for s, k in a.t))
                    qa = (lo // b.c if lo >= 0 else -((-lo) // b.c)); qb = (hi // b.c if hi >= 0 else -((-hi) // b.c))
                    x = uninterp('div', (a, b.c), qa if lo > -INF else -INF, qb if hi < INF else INF)
                    if lo >= 0 and x.t:
                        f1 = x.mul(b.c).sub(a); f2 = a.sub(x.mul(b.c)).plus(1 - b.c)
                        for f in (f1, f2):
                            if f not in st.facts and not st.prove(f, 1): st.facts = st.facts + (f,)
                else:
                    if lo >= 0 and hi < b.c: return a
                    x = uninterp('mod', (a, b.c), 0 if lo >= 0 else -(b.c - 1), b.c - 1)
            else: x = uninterp(op, (a, b))
        elif op == '&':
            if a.const and b.const: x = K(a.c & b.c)
            else:
                if a.const: a, b = b, a
                la, ha = st.bounds(a); lb, hb = st.bounds(b)
                if b.const and b.c >= 0 and (b.c & (b.c + 1)) == 0:
                    if la >= 0 and ha <= b.c: return a
                    # the low bits of a modular value are those of what it stands for
                    w = b.c.bit_length(); y = a; n = 0
                    while n < 8:
                        n += 1; hit = False
                        for s, k in y.t:
                            d = DEFS.get(s)
                            if d and d[0] == 'wrap' and d[1][0] >= w:
                                y = Lin(y.c, tuple(z for z in y.t if z[0] != s)).add(d[1][2], k); hit = True; break
                        if not hit: break
                    y = st.current(y)
                    if y.__class__ is Lin:
                        y = Lin(y.c % (b.c + 1), y.t)
                        if y.const: return K(y.c & b.c)
                        for j in range(-2, 3):      # y mod 2^k is y +- a multiple of 2^k that lies in [0, 2^k)
                            z = y.plus(-j * (b.c + 1))
                            if st.prove(z.mul(-1)) and st.prove(z.plus(-b.c)): return z
                        a = y
                    x = uninterp('and', (a, b.c), 0, b.c)
                else:
                    hi = min([h for l, h in ((la, ha), (lb, hb)) if l >= 0] or [INF])
                    x = uninterp('and2', (a, b), 0 if la >= 0 or lb >= 0 else -INF, hi)
        elif op == '|':
            if a.const and b.const: x = K(a.c | b.c)
            elif a == Z: x = b
            elif b == Z: x = a
            else:
                la, ha = st.bounds(a); lb, hb = st.bounds(b)
                x = uninterp('or', (a, b), max(la, lb) if la >= 0 and lb >= 0 else -INF, ha + hb if la >= 0 and lb >= 0 else INF)
        elif op == '^':
            x = K(a.c ^ b.c) if a.const and b.const else uninterp('xor', (a, b))
        elif op == '<<':
            if b.const and 0 <= b.c < 64: x = a.mul(1 << b.c)
            else: x = uninterp('shl', (a, b))
        elif op == '>>':
            if b.const and 0 <= b.c < 64:
                if a.const: x = K(a.c >> b.c)
                elif st.lo(a) >= 0: return self.arith(st, '/', a, K(1 << b.c), t)
                else: x = uninterp('shr', (a, b))
            else: x = uninterp('shr', (a, b))
        else: x = uninterp(op, (a, b))
        if st.sub and x.one() and sid(x) in DEFS:
            y = st.current(x)
            if y.__class__ is Lin: x = y
        if r is None: return x
        if t[0] == 'i':
            lo, hi = st.bounds(x)
            if lo < r[0] or hi > r[1]:
                if op in '+-*':
                    self.h.overflow(self, st, x, t)
                    if x.const: return self.wrap(st, x, t)
                else: return self.wrap(st, x, t)
            return x
        return self.wrap(st, x, t)

    # ---- evaluation
    def ev(self, st, e):
        k = e[0]
        if k == 'i': return K(e[1])
        if k == 'L':
            lv = e[1]
            if lv[0] == 'v':
                n = lv[1]
                fr = st.frames[-1]
                if n in fr: return fr[n]
                if n[0] in 'l%' and n not in self.F.inmem:
                    v = fr[n] = fresh_t(e[2], 'uninit ' + n); return v
            return self.load(st, self.loc(st, lv), e[2])
        if k == 'b': return self.arith(st, e[1], self.ev(st, e[2]), self.ev(st, e[3]), e[4])
        if k == 'c':
            v = self.ev(st, e[2])
            if v.__class__ is not Lin: 
                return v
            return self.wrap(st, v, e[3]) if e[1] in ('IntegralCast', 'BooleanToSignedIntegral', 'PointerToIntegral', 'IntegralToPointer') else v
        if k == 'padd':
            b = self.ev(st, e[1]); i = self.ev(st, e[2])
            if i.__class__ is not Lin: i = fresh()
            d = i.mul(e[3])
            if b.__class__ is Ptr: return Ptr(b.o, b.f.add(d))
            if b.__class__ is Lin: 
                if b.one() and not d.const or (b.one() and d.c): 
                    p = self.topointer(st, b, None)
                    if p is not None: return Ptr(p.o, p.f.add(d))
                return b.add(d)
            return b
        if k == 'pdiff':
            a = self.ev(st, e[1]); b = self.ev(st, e[2])
            if a.__class__ is Ptr and b.__class__ is Ptr and a.o != b.o: a = self.h.alias(a); b = self.h.alias(b)
            if a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
                d = a.f.sub(b.f)
                if e[3] == 1: return d
                return self.arith(st, '/', d, K(e[3]), 'i64')
            return fresh_t('i64', 'pointer difference')
        if k == '&':
            o, f, x, w = self.loc(st, e[1])
            return Ptr(o, f if not x else f.plus(x // 8))
        if k == 'u':
            v = self.ev(st, e[2])
            if v.__class__ is not Lin: return fresh_t(e[3])
            if e[1] == '-': return self.arith(st, '-', Z, v, e[3])
            if e[1] == '~':
                if v.const: return self.wrap(st, K(~v.c), e[3])
                return self.wrap(st, v.mul(-1).plus(-1), e[3])
            return uninterp(e[1], (v,))
        if k == 'str': return Ptr(('str', e[1]))
        if k == 'fn': return Fnp(e[1])
        if k == 'uf':
            v = self.ev(st, e[2]); r = trange(e[3])
            return uninterp(e[1], (v if v.__class__ is Lin else Z, e[3]), *(r or (-INF, INF)))
        if k == 'uf2':
            a = self.ev(st, e[2]); b = self.ev(st, e[3])
            return uninterp('f' + e[1], (a, b))
        if k == 'unk': return fresh_t(e[1] if len(e) > 1 else None, 'unknown')
        if k == 'struct': 
            o, f, x, w = self.loc(st, e[1]); return Ptr(o, f.plus(x // 8) if x else f)
        raise AnalysisBroken('expression ' + repr(e))

    def topointer(self, st, v, t):
        """the object a pointer value points to; gives a symbolic pointer an object of its own"""
        if v.__class__ is Ptr: return v
        if v.__class__ is Lin:
            if v.const: return None
            if v.one():
                s = sid(v)
                o = ('*', s)
                if o not in st.info: st.info[o] = Info('ext', t[2:] if t and t[:2] == 'r:' else t, None)
                return Ptr(o)
            # symbolic base + offset
            for s, k in v.t:
                if k == 1 and SYM[s][1] >= 1 << 40 :
                    o = ('*', s)
                    if o not in st.info: st.info[o] = Info('ext', t, None)
                    return Ptr(o, v.sub(Lin(0, ((s, 1),))))
        return None

    def loc(self, st, lv):
        """(object, byte offset, extra bits, width in bits)"""
        k = lv[0]
        if k == 'v':
            n = lv[1]
            if n[0] == 'g': o = ('G', n)
            else: o = ('L', self.fid, n)
            return (o, Z, 0, self.p.sizeof(lv[2]) * 8 if len(lv) > 2 else 64)
        if k == '.':
            o, f, x, w = self.loc(st, lv[1])
            return (o, f, x + lv[2], lv[3])
        if k == '*':
            v = self.ev(st, lv[1]); t = lv[2]
            p = self.topointer(st, v, t)
            if p is None:
                if v.__class__ is Lin and v.const and v.c == 0:
                    self.h.nullderef(self, st, self.where())
                st.dead = True
                return (('null',), Z, 0, 64)
            i = st.info.get(p.o)
            if i is not None and i.kind == 'ext' and i.type is None and t and t[:2] == 'r:': st.info[p.o] = i.upd(type=t[2:])
            return (p.o, p.f, 0, self.p.sizeof(t) * 8)
        raise AnalysisBroken('location ' + repr(lv))

    def info(self, st, o):
        i = st.info.get(o)
        if i is None:
            if o[0] == 'G':
                g = self.p.globals.get(o[1], {}); t = g.get('t', 'i32')
                i = Info('global', t[2:] if t[:2] == 'r:' else t, K(self.p.sizeof(t)))
            elif o[0] == 'str': i = Info('str', 'i8', K(len(o[1]) + 1))
            elif o[0] == 'L': i = Info('local', None, None, default='uninit')
            else: i = Info('ext', None, None)
            st.info[o] = i
        return i

    def load(self, st, loc, t):
        o, f, x, w = loc
        i = self.info(st, o)
        if i.status == 'freed': self.h.uaf(self, st, o, 'read')
        if f.const:
            off = f.c * 8 + x; key = (off, w)
            self.h.load(self, st, o, off, w, t)
            c = st.mem.get(o)
            if c is not None:
                v = c.get(key)
                if v is not None: return v
                if len(c) and any(k[0] != 's' and k[0] < off + w and off < k[0] + k[1] for k in c if k[0] != 's'):
                    # partially overlapping cells: unknown
                    z = all(v2 == Z for k, v2 in c.items() if k[0] != 's' and k[0] < off + w and off < k[0] + k[1])
                    if z and i.default == 'zero': return Z
                    v = fresh_t(t, 'overlap'); return v
            if o[0] == 'str' and w == 8:
                n = off // 8; s = o[1]
                return K(sgn8(ord(s[n]))) if n < len(s) else K(0)
            v = self.h.materialise(self, st, o, off, w, t)
            if v is not None and o[0] in ('V', 'KK'): return v
            if v is None:
                if i.kind == 'global': v = self.ginit(o, off, w)
            if v is None:
                if i.default == 'zero': v = Z
                else: v = fresh_t(t, '%s@%d' % (oname(o), off // 8))
            st.cells(o)[key] = v
            return v
        self.h.load(self, st, o, (f, x), w, t)
        key = ('s', f, x, w); c = st.mem.get(o)
        if c is not None and key in c: return c[key]
        v = self.h.materialise(self, st, o, (f, x), w, t)
        if v is not None and o[0] in ('V', 'KK'): return v
        if v is None:
            v = fresh_t(t, '%s[]' % oname(o))
        st.cells(o)[key] = v
        return v

    def ginit(self, o, off, w):
        g = self.p.globals.get(o[1])
        if not g or 'init' not in g: return None
        c = self.p.table(o[1])
        if c is None: return None
        k = (off, w)
        if k in c:
            v = c[k]
            if v is None: return None
            return K(v[1]) if v[0] == 'i' else Ptr(('str', v[1])) if v[0] == 'str' else Fnp(v[1])
        if any(a < off + w and off < a + b for a, b in c): return None
        if not 0 <= off <= off + w <= self.p.sizeof(g['t']) * 8: return None
        return Z

    def store(self, st, loc, v, t):
        o, f, x, w = loc
        i = self.info(st, o)
        if i.status == 'freed': self.h.uaf(self, st, o, 'write')
        if v.__class__ is Lin and t and t[0] not in 'pRrf' and w < 64:
            r = trange(t)
            if r and w < (r[1] - r[0]).bit_length():   # bit-field
                tt = ('i%d' if t[0] == 'i' else 'u%d') % w
                v = self.wrap(st, v, tt) if w > 1 or t[0] != 'b' else v
        if f.const:
            off = f.c * 8 + x
            r = self.h.store(self, st, o, off, w, v, t)
            if r is not None:
                if r is True: return
                v = r
            c = st.cells(o); key = (off, w)
            if key not in c or len(c) > 1:
                kill = [k for k in c if k[0] != 's' and k != key and k[0] < off + w and off < k[0] + k[1]]
                for k in kill: del c[k]
                sk = [k for k in c if k[0] == 's']
                for k in sk:
                    lo, hi = st.bounds(k[1])
                    if lo * 8 + k[2] < off + w and off < hi * 8 + k[2] + k[3]: 
                        if not (st.prove_ne(k[1].sub(K(off // 8)))): del c[k]
            c[key] = v
        else:
            r = self.h.store(self, st, o, (f, x), w, v, t)
            if r is not None:
                if r is True: return
                v = r
            c = st.cells(o); lo, hi = st.bounds(f)
            for k in list(c):
                if k[0] == 's':
                    if k[1] != f and st.prove_ne(k[1].sub(f)) and k[3] == w: continue
                    del c[k]
                elif lo > -INF // 2 and hi < INF // 2 and not (k[0] < hi * 8 + x + w and lo * 8 + x < k[0] + k[1]): continue
                elif hi >= INF // 2 and k[1] != w: continue
                else: del c[k]
            c[('s', f, x, w)] = v

    def havoc(self, st, o, lo=None, hi=None):
        """forget the contents of o (bits lo..hi)"""
        c = st.mem.get(o)
        if c is None: 
            i = self.info(st, o)
            if lo is None and i.default != 'lazy': st.info[o] = i.upd(default='lazy')
            return
        c = st.cells(o)
        for k in list(c):
            if k[0] == 's' or lo is None or (k[0] < hi and lo < k[0] + k[1]): del c[k]
        i = self.info(st, o)
        if lo is None and i.default != 'lazy': st.info[o] = i.upd(default='lazy')
    def zero(self, st, o, off, size):
        """memset(0) of size bytes at byte offset off"""
        i = self.info(st, o); c = st.cells(o)
        tot = i.size.c if i.size is not None and i.size.__class__ is Lin and i.size.const else None
        if off == 0 and tot is not None and size >= tot:
            st.mem[o] = {}; st.own.add(o); st.info[o] = i.upd(default='zero'); return
        for k in list(c):
            if k[0] == 's' or (k[0] < (off + size) * 8 and off * 8 < k[0] + k[1]): del c[k]
        for (fo, fw, ft) in self.leaves(i.type, 0):
            if off * 8 <= fo and fo + fw <= (off + size) * 8:
                self.h.store(self, st, o, fo, fw, Z, ft)
                c[(fo, fw)] = Z
    def leaves(self, t, base, depth=0):
        """scalar fields of type t: (bit offset, width, type); arrays are left out beyond 64 elements"""
        if t is None: return
        if t in self.p.fld or t[:2] == 'r:':
            r = t[2:] if t[:2] == 'r:' else t
            for fd in self.p.fld.get(r, {}).values():
                ft = fd['t']
                if ft[0] == 'r': yield from self.leaves(ft, base + fd['o'], depth + 1)
                elif ft[0] == 'a': yield from self.leaves(ft, base + fd['o'], depth + 1)
                else: yield (base + fd['o'], fd['w'], ft)
        elif t[0] == 'a':
            n, et = t[2:].split(':', 1); sz = self.p.sizeof(et) * 8
            if int(n) <= 64:
                for j in range(int(n)): yield from self.leaves(et, base + j * sz, depth + 1)
        else: yield (base, self.p.sizeof(t) * 8, t)
    def copy_struct(self, st, dst, src, t):
        do, df, dx, _ = dst; so, sf, sx, _ = src
        seen = set()
        for (fo, fw, ft) in self.leaves(t, 0):
            if (fo, fw) in seen: continue
            seen.add((fo, fw))
            # overlapping alternatives of a union: copy what the source holds
            c = st.mem.get(so, {})
            if sf.const:
                ab = sf.c * 8 + sx + fo
                if (ab, fw) not in c and any(k[0] != 's' and k[0] < ab + fw and ab < k[0] + k[1] for k in c): continue
            v = self.load(st, (so, sf, sx + fo, fw), ft)
            self.store(st, (do, df, dx + fo, fw), v, ft)
        if sf.const and df.const:
            # contents of a whole array held as one value
            b = sf.c * 8 + sx; n = self.p.sizeof(t) * 8
            for k, v in list(st.mem.get(so, {}).items()):
                if k[0] != 's' and k[1] > 128 and b <= k[0] and k[0] + k[1] <= b + n: st.cells(do)[(k[0] - b + df.c * 8 + dx, k[1])] = v

    # ---- conditions
    def assume(self, st, op, a, b):
        """restrict st to a op b; returns whether anything is left"""
        ca = a.__class__; cb = b.__class__
        if ca is Lin and cb is Lin:
            d = a.sub(b)
            if op == '==': return self.ptr_eq(st, a, b) if self.isptr(a) and self.isptr(b) and not d.const else st.add_eq(d)
            if op == '!=': return st.add_ne(d)
            if op == '<': return st.add_le(d.plus(1))
            if op == '<=': return st.add_le(d)
            if op == '>': return st.add_le(b.sub(a).plus(1))
            if op == '>=': return st.add_le(b.sub(a))
        if ca is Ptr and cb is Ptr:
            if a.o != b.o: a = self.h.alias(a); b = self.h.alias(b)
            if a.o == b.o: return self.assume(st, op, a.f, b.f)
            if op in ('==', '!='): return (op == '!=') if self.distinct(st, a.o, b.o) else True
            return True
        if ca is Fnp or cb is Fnp:
            if ca is cb: return (a.n == b.n) == (op == '==')
            o = b if ca is Fnp else a
            if o.__class__ is Lin and o.const: return op == '!='
            if o.__class__ is Lin and o.one():
                if op == '==': return st.subst(sid(o), a if ca is Fnp else b) if False else True
                return True
            return op == '!='
        # pointer against number
        p, l = (a, b) if ca is Ptr else (b, a)
        if l.const: 
            if op == '==': return False
            if op == '!=': return True
            return True
        if l.one():
            s = sid(l)
            if ('*', s) == p.o: return (op == '==') == (p.f == Z) if p.f.const else True
            if self.unrelated(st, s, p.o): return op == '!='
            for x in st.ne:
                if x.__class__ is tuple and x == (s, p): return op == '!='
            if op == '==': return st.subst(s, p)
            return True
        return True
    def isptr(self, l): return l.one() and SYM[sid(l)][1] > 1 << 40
    def ptr_eq(self, st, a, b): return st.add_eq(a.sub(b))
    def distinct(self, st, o1, o2): return True
    def unrelated(self, st, s, o):
        # an object allocated after the value came into being, or a local, cannot be what it points to
        if o[0] in ('L', 'str'): return True
        if o[0] == 'H' and o[2] > s: return True
        return self.h_unrelated(st, s, o)
    def h_unrelated(self, st, s, o):
        f = getattr(self.h, 'unrelated', None)
        return f(self, st, s, o) if f else False

    # ---- allocation
    def alloc(self, st, size, site, default='uninit'):
        o = ('H', next(NOBJ), len(SYM))
        st.info[o] = Info('heap', None, size, 'live', default, site); st.mem[o] = {}; st.own.add(o)
        return o
    def free(self, st, v):
        """returns error text or None"""
        if v.__class__ is Lin:
            if v.const: return None if v.c == 0 else 'free of a number'
            p = self.topointer(st, v, None)
            if p is None: return None
            v = p
        if v.__class__ is not Ptr: return 'free of something not allocated'
        i = self.info(st, v.o)
        if i.status == 'freed': return 'freed twice'
        if i.kind in ('local', 'global', 'str'): return 'free of memory that was not allocated'
        if v.f != Z: return 'free of a pointer into the middle of an object'
        st.info[v.o] = i.upd(status='freed')
        return None

    # ---- running
    def tick(self):
        self.steps += 1
        if self.steps & 255 == 0 and time.time() - self.t0 > self.budget: raise Budget('analysis budget of %ds used up in %s' % (self.budget, '/'.join(f.name for f in self.stack[-6:])))

    def run(self, st, key, args):
        """all states in which function key, called in st, can return: [(state, value)]"""
        F = self.p.fn(key)
        if sum(1 for f in self.stack if f is F) >= 1:
            r = self.h.recursion(self, st, F, args)
            if r is not None: return r
        if len(self.stack) > 60: raise AnalysisBroken('call depth')
        self.fns[key] = self.fns.get(key, 0) + 1
        self.h.entered(self, st, F, args)
        saved = (self.F, self.fid, self.line, self.ins)
        self.stack.append(F); self.F = F; depth = len(self.stack); self.fid = depth
        st.frames.append({})
        fr = st.frames[-1]
        for (n, t), a in itertools.zip_longest(F.params, args[:len(F.params)]):
            if a is None: a = fresh_t(t, 'arg')
            if n in F.inmem:
                o = ('L', depth, n); st.info[o] = Info('local', t[2:] if t[:2] == 'r:' else t, K(self.p.sizeof(t)), default='uninit'); st.mem[o] = {}; st.own.add(o)
                if t[0] == 'r' and a.__class__ is Ptr: self.copy_struct(st, (o, Z, 0, 0), (a.o, a.f, 0, 0), t)
                else: st.cells(o)[(0, self.p.sizeof(t) * 8)] = a
            else: fr[n] = a
        out = []; okeys = set(); rets = []; mark0 = len(SYM); merge = self.h.merge_returns(self, F)
        heap = []; seq = itertools.count()
        seen = {}; heads = {}
        heapq.heappush(heap, (0, next(seq), 0, st))
        rpo = F.rpo
        while heap:
            _, _, b, s = heapq.heappop(heap)
            self.F = F; self.fid = depth
            live = F.live.get(b)
            fr = s.frames[-1]
            for n in [n for n in fr if n not in live]: del fr[n]
            done = None
            if b in F.heads:
                done = self.leaving(s, F, b)
                if done is not None:
                    gc(self, s); k = canon(self, s); d = seen.setdefault(b, set())
                    if k in d: self.joins += 1; continue
                    d.add(k); self.fid = depth; self.F = F
                    done = list(self.block(s, F, b))
                else:
                    s = self.loophead(s, F, b, heads)
                    if s is None: continue
            elif b in F.joins and (heap or b in seen):
                k = canon(self, s)
                d = seen.setdefault(b, set())
                if k in d: self.joins += 1; continue
                d.add(k)
            for s2, nb, rv in done if done is not None else self.block(s, F, b):
                if nb is not None: heapq.heappush(heap, (rpo.get(nb, 0), next(seq), nb, s2))
                else:
                    self.F = F; self.fid = depth
                    # leave the frame
                    s2.frames.pop()
                    for o in [o for o in s2.mem if o[0] == 'L' and o[1] == depth]: del s2.mem[o]; s2.info.pop(o, None)
                    for o in [o for o in s2.info if o[0] == 'L' and o[1] == depth]: del s2.info[o]
                    self.h.returned(self, s2, F, rv)
                    if s2.dead: continue
                    if merge and s2.frames and (rv is None or rv.__class__ is Lin):
                        fr2 = s2.frames[-1]
                        if rv is not None: fr2['%ret'] = rv
                        gc(self, s2); sh, lv = canon_shape(self, s2, 0); fr2.pop('%ret', None)
                        if any(x[0] == sh and self.subsumes(x[2], x[1], s2, lv, mark0) for x in rets): self.joins += 1; continue
                        drop = [x for x in rets if x[0] == sh and self.subsumes(s2, lv, x[2], x[1], mark0)]
                        if drop:
                            rets = [x for x in rets if not any(x is y for y in drop)]; out = [o for o in out if not any(o[0] is y[2] for y in drop)]
                        rets.append((sh, lv, s2))
                    elif heap or okeys:
                        k = canon(self, s2, rv)
                        if k in okeys: self.joins += 1; continue
                        okeys.add(k)
                    out.append((s2, rv))
        self.stack.pop(); self.F, self.fid, self.line, self.ins = saved
        return out

    def leaving(self, st, F, b):
        """does the loop with head b end at once in this state?"""
        if any(I[0] == 'C' for I in F.blocks[b][0]): return None
        body = F.loops[b]
        n = 0
        for s2, nb, rv in self.block(st.copy(), F, b):
            n += 1
            if nb is None or nb in body: return None
        return n or None
    def block(self, st, F, b):
        """runs block b; yields (state, next block or None, return value)"""
        ins, term = F.blocks[b]
        work = [(st, 0)]; res = []
        n = len(ins)
        while work:
            s, i = work.pop()
            dead = False
            while i < n:
                self.tick()
                I = ins[i]; op = I[0]; i += 1; self.ins = I
                if op == 'S':
                    self.line = I[4] or self.line
                    v = self.ev(s, I[2])
                    if s.dead: dead = True; break
                    lv = I[1]
                    if lv[0] == 'v' and lv[1][0] in 'l%' and lv[1] not in F.inmem: s.frames[-1][lv[1]] = self.h.assigned(self, s, v)
                    else:
                        l = self.loc(s, lv)
                        if s.dead: dead = True; break
                        self.store(s, l, v, I[3])
                        if s.dead: dead = True; break
                elif op == 'C':
                    self.line = I[6]
                    r = self.docall(s, F, I, b, i)
                    self.F = F; self.fid = len(self.stack)
                    if len(r) == 1:
                        s, v = r[0]
                        if s.dead: dead = True; break
                        if I[1]: self.setvar(s, F, I[1], v, I[5])
                        continue
                    for s2, v in r:
                        if s2.dead: continue
                        if I[1]: self.setvar(s2, F, I[1], v, I[5])
                        work.append((s2, i))
                    dead = True; break
                elif op == 'D':
                    nme = I[1]; self.line = I[3] or self.line
                    if nme in F.inmem:
                        o = ('L', self.fid, nme); t = I[2]
                        s.mem[o] = {}; s.own.add(o); s.info[o] = Info('local', t[2:] if t[:2] == 'r:' else t, K(self.p.sizeof(t)), default='uninit')
                    else: s.frames[-1].pop(nme, None)
                elif op == 'SS':
                    self.line = I[4]; t = I[3]
                    a = self.loc(s, I[1]); c = self.loc(s, I[2])
                    if s.dead: dead = True; break
                    if t[0] == 'r': self.copy_struct(s, a, c, t)
                    else: self.havoc(s, a[0])
                elif op == 'Z':
                    l = self.loc(s, I[1]); t = I[2]
                    if s.dead: dead = True; break
                    if l[1].const: self.zero_t(s, l, t)
                elif op == 'H':
                    l = self.loc(s, I[1])
                    if s.dead: dead = True; break
                    self.havoc(s, l[0])
            if dead: continue
            k = term[0]
            if k == 'J': res.append((s, term[1], None))
            elif k == 'B':
                c = term[1]; self.line = term[4] or self.line
                a = self.ev(s, c[2]); bb = self.ev(s, c[3])
                if s.dead: continue
                t = s.copy()
                self.branches.add((F.key, b))
                neg = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[c[1]]
                if self.assume(s, c[1], a, bb) and self.h.assumed(self, s, a, bb):
                    s.note(F.file, term[4], True); res.append((s, term[2], None))
                if self.assume(t, neg, a, bb) and self.h.assumed(self, t, a, bb):
                    t.note(F.file, term[4], False); res.append((t, term[3], None))
            elif k == 'R':
                self.line = term[2]
                v = self.ev(s, term[1]) if term[1] is not None else None
                if s.dead: continue
                self.paths += 1
                res.append((s, None, v))
            elif k == 'W':
                self.line = term[4]
                v = self.ev(s, term[1])
                if s.dead: continue
                rest = s
                if v.__class__ is not Lin:
                    res.append((s, term[3], None)); continue
                alive = True
                for lo, hi, tb in term[2]:
                    t = rest.copy()
                    if lo == hi: ok = self.assume(t, '==', t.current(v), K(lo))
                    else: ok = self.assume(t, '>=', v, K(lo)) and self.assume(t, '<=', t.current(v), K(hi))
                    if ok: t.note(F.file, term[4], lo); res.append((t, tb, None))
                    if alive:
                        if lo == hi: alive = self.assume(rest, '!=', rest.current(v), K(lo))
                    if not alive: break
                if alive: rest.note(F.file, term[4], 'default'); res.append((rest, term[3], None))
            elif k == 'X': pass
        return res

    def zero_t(self, st, l, t):
        o, f, x, w = l; size = self.p.sizeof(t)
        i = self.info(st, o)
        c = st.cells(o); base = f.c * 8 + x
        if base == 0 and (i.kind == 'local' or (i.size is not None and i.size.const and i.size.c <= size)):
            st.mem[o] = {}; st.own.add(o); st.info[o] = i.upd(default='zero'); return
        for k in list(c):
            if k[0] == 's' or (k[0] < base + size * 8 and base < k[0] + k[1]): del c[k]
        for (fo, fw, ft) in self.leaves(t, base):
            self.h.store(self, st, o, fo, fw, Z, ft); c[(fo, fw)] = Z

    def setvar(self, st, F, n, v, t):
        if v is None: v = fresh_t(t, 'result')
        if n in F.inmem: self.store(st, (('L', self.fid, n), Z, 0, self.p.sizeof(t) * 8), v, t)
        else: st.frames[-1][n] = v

    def docall(self, st, F, I, b, nexti):
        _, dest, name, fe, arges, t, line, node = I
        args = [self.ev(st, a) for a in arges]
        if st.dead: return []
        if name is None:
            v = self.ev(st, fe)
            if v.__class__ is not Fnp:
                r = self.h.wildcall(self, st, v, args, I)
                if r is not None: return r
                return []
            name = v.n
        self.calls += 1
        # variables not needed after the call
        la = self.liveafter(F, b, nexti)
        fr = st.frames[-1]
        for n in [n for n in fr if n not in la]: del fr[n]
        return self.apply(st, name, args, I)

    def apply(self, st, name, args, I):
        r = self.h.call(self, st, name, args, I)
        if r is not None: return r
        m = self.models.get(name)
        if m is None and I is not None and I[7]: m = self.models.get(I[7].get('bn'))  if name not in self.p.functions else None
        if m is not None:
            r = m(self, st, args, I)
            return r
        if name not in self.p.functions and '%s/%d' % (name, len(args)) in self.p.functions: name = '%s/%d' % (name, len(args))
        if name in self.p.functions:
            st.note(self.F.file if self.F else '', self.line, 'call ' + name)
            return self.run(st, name, args)
        return self.extern(st, name, args, I)

    def extern(self, st, name, args, I):
        """a function nothing is known about: its result and what its arguments point to are unknown"""
        self.unknown = getattr(self, 'unknown', {}); self.unknown[name] = self.unknown.get(name, 0) + 1
        pr = self.p.protos.get(name)
        for i, a in enumerate(args):
            if a.__class__ is Ptr and a.o[0] not in ('str',):
                pt = pr['ps'][i] if pr and i < len(pr['ps']) else None
                inf = self.info(st, a.o)
                if inf.kind in ('local',) or (inf.kind == 'heap'): self.havoc(st, a.o)
        t = I[5] if I else 'v'
        return [(st, fresh_t(t, name) if t != 'v' else None)]

    def liveafter(self, F, b, i):
        d = F.__dict__.setdefault('la', {})
        k = (b, i)
        r = d.get(k)
        if r is None:
            from prog import vars_of, Lower
            ins, term = F.blocks[b]
            l = set()
            for s in Lower.succ(term): l |= F.live.get(s, set())
            if term[0] in ('B', 'W', 'R') and term[1] is not None: l |= set(vars_of(term[1]))
            for j in range(len(ins) - 1, i - 1, -1):
                I = ins[j]
                if I[0] == 'S':
                    if I[1][0] == 'v': l.discard(I[1][1])
                    else: l |= set(vars_of(I[1]))
                    l |= set(vars_of(I[2]))
                elif I[0] == 'C':
                    if I[1]: l.discard(I[1])
                    for a in I[4]: l |= set(vars_of(a))
                    if I[3] is not None: l |= set(vars_of(I[3]))
                elif I[0] == 'D': l.discard(I[1])
                elif I[0] == 'SS': l |= set(vars_of(I[1])) | set(vars_of(I[2]))
                elif I[0] in 'ZH': l |= set(vars_of(I[1]))
            d[k] = r = l
        return r

    # ---- loops
    def loophead(self, st, F, b, heads):
        hs = heads.get(b)
        gc(self, st)
        if hs is None:
            self.headno = getattr(self, 'headno', 0) + 1; hs = heads[b] = {'id': self.headno, 'mark': len(SYM), 'entries': [], 'keys': set(), 'n': 0}
        full = canon(self, st)
        if full in hs['keys']: self.joins += 1; return None
        hs['visits'] = hs.get('visits', 0) + 1
        if hs['visits'] > 20000: raise AnalysisBroken('loop at %s block %d does not stabilise' % (F.key, b))
        level = 0 if len(hs['entries']) < self.exact else 1
        shape, leaves = canon_shape(self, st, level)
        if hs['n'] in (30, 31, 300, 301, 302, 303) and DEBUG: print('LOOP', F.key, hs['n'], len(hs['entries']), shape, leaves, st.facts, st.ne)
        for (l0, sh0, lv0, st0, *_) in hs['entries']:
            if sh0 == shape and l0 == level and self.subsumes(st0, lv0, st, leaves, hs['mark']):
                self.joins += 1; return None
        hs['n'] += 1
        if hs['n'] > max(self.maxhead, 4 * self.unroll): raise AnalysisBroken('loop at %s block %d does not stabilise' % (F.key, b))
        if hs['n'] <= self.unroll or hs['n'] <= 4 * self.p.loop_table(F, b):
            hs['keys'].add(full); hs['entries'].append((level, shape, leaves, st.copy())); self.mark(st, hs); return st
        same = [e[:4] for e in hs['entries'] if e[1] == shape and e[0] == level]; wid = ()
        if same:
            ns = self.widen(same, st, leaves, shape, level, hs)
            if ns is not None:
                st, leaves = ns; wid = (1,)
                full = canon(self, st); 
                if full in hs['keys']: return None
        hs['keys'].add(full)
        hs['entries'].append((level, shape, leaves, st.copy()) + wid); self.mark(st, hs)
        self.maxdisj = max(self.maxdisj, len(hs['entries']))
        return st

    def mark(self, st, hs): st.trace = (st.trace, ('', 0, ('LH', hs['id'], len(hs['entries']) - 1)))
    def ancestors(self, st, hs, shape, level):
        """states of the same form this one developed from, latest first"""
        t = st.trace; n = 0; k = 0
        while t is not None and k < 8 and n < 20000:
            x = t[1]; t = t[0]; n += 1
            if x[2].__class__ is tuple and x[2][0] == 'LH' and x[2][1] == hs['id']:
                k += 1; e = hs['entries'][x[2][2]]
                if e[0] == level and e[1] == shape: yield e[:4]
    def subsumes(self, s0, lv0, s1, lv1, mark, weaken=False):
        """is s1 described by s0?  Symbols of s0 younger than mark are parameters that may be instantiated."""
        m = {}
        sub1 = dict(s1.sub)
        def cur(l):
            return s1.current(l)
        def inst0(a):
            if any(s in m for s, _ in a.t):
                r = Lin(a.c)
                for s, k in a.t: r = r.add(m[s], k) if s in m else r.add(Lin(0, ((s, k),)))
                return r
            return a
        def solve(a2, b, s, k):
            rest = cur(Lin(a2.c, tuple(x for x in a2.t if x[0] != s)))
            if rest.__class__ is not Lin: return None
            d = b.sub(rest)
            if abs(k) != 1:
                if d.c % k or any(q % k for _, q in d.t): return None
                return Lin(d.c // k, tuple((x, q // k) for x, q in d.t))
            return d.mul(k)
        later = []
        if len(lv0) != len(lv1): return False
        for a, b in zip(lv0, lv1):
            a2 = inst0(a)
            un = [(s, k) for s, k in a2.t if s >= mark and s not in m and (s, k) in a.t]
            if not un:
                if cur(a2) != b: return False
                continue
            if len(un) > 1:
                later.append((a, b)); continue
            v = solve(a2, b, *un[0])
            if v is None: return False
            m[un[0][0]] = v
        rounds = 0
        while later and rounds < 12:
            rounds += 1; rest = []; prog = False
            for a, b in later:
                a2 = inst0(a)
                un = [(s, k) for s, k in a2.t if s >= mark and s not in m and (s, k) in a.t]
                if not un:
                    if cur(a2) != b: return False
                    prog = True; continue
                if len(un) > 1: rest.append((a, b)); continue
                v = solve(a2, b, *un[0])
                if v is None: return False
                m[un[0][0]] = v; prog = True
            later = rest
            if not prog and later:
                # one of the free parameters is set to the value it has itself, or to its least value
                a, b = later[0]; a2 = inst0(a)
                un = [(s, k) for s, k in a2.t if s >= mark and s not in m and (s, k) in a.t]
                bs = {s for s, _ in b.t}
                s = next((s for s, k in un if s in bs), None)
                if s is not None: m[s] = Lin(0, ((s, 1),))
                else:
                    s = un[0][0]; lo = s0.rng(s)[0]
                    m[s] = K(lo) if lo > -INF else Z
        if later: return False
        # constraints of s0 must hold in s1
        def inst(l):
            r = Lin(l.c)
            for s, k in l.t:
                v = m[s] if s in m else cur(Lin(0, ((s, 1),)))
                if v.__class__ is not Lin: return None
                r = r.add(v, k)
            return r
        # a quantity computed from others corresponds to the one computed from the corresponding others
        for s in [s for s in m if s in DEFS]:
            v = m[s]
            if v.__class__ is Lin and v.one() and sid(v) == s: continue
            if v.__class__ is not Lin or not v.one() or sid(v) not in DEFS: return False
            (f0, a0), (f1, a1) = DEFS[s][:2], DEFS[sid(v)][:2]
            if f0 != f1 or len(a0) != len(a1): return False
            for x, y in zip(a0, a1):
                if x.__class__ is Lin:
                    if y.__class__ is not Lin: return False
                    x = inst(x)
                    if x is None or x != cur(y) and x != y: return False
                elif x != y: return False
        syms = set()
        for l in lv0: syms |= {s for s, _ in l.t}
        ns = None
        if weaken: ns = s0.copy(); ns.trace = s1.trace
        for s in syms:
            lo, hi = s0.rng(s)
            v = m.get(s)
            if v is None: v = cur(Lin(0, ((s, 1),)))
            if v.__class__ is not Lin: return False
            l1 = lo <= -INF or s1.prove(K(lo).sub(v)); h1 = hi >= INF or s1.prove(v.plus(-hi))
            if l1 and h1: continue
            if not weaken or s < mark: return False
            L, H = SYM[s][:2]
            ns.itv[s] = (lo if l1 else max(L, thr_lo(s1.lo(v))), hi if h1 else min(H, thr_hi(s1.hi(v))))
        facts = []
        for f in s0.facts:
            g = inst(f)
            if g is not None and s1.prove(g): facts.append(f)
            elif not weaken: return False
        nes = []
        for f in s0.ne:
            g = inst(f)
            if g is not None and s1.prove_ne(g): nes.append(f)
            elif not weaken: return False
        if not weaken: return True
        ns.facts = tuple(facts); ns.ne = tuple(nes)
        return ns

    def landmarks(self, st):
        """values a counter is likely to be compared with"""
        return set()
    def widen(self, same, st, leaves, shape, level, hs):
        """generalise st with the states seen before at this loop head"""
        mark = hs['mark']
        self.widenings += 1
        # 0. an earlier generalisation fits except for some of its constraints: these are given up
        for e in reversed(hs['entries']):
            if e[1] == shape and e[0] == level and len(e) > 4:
                ns = self.subsumes(e[3], e[2], st, leaves, mark, True)
                if ns:
                    gc(self, ns); sh, lv = canon_shape(self, ns, level)
                    return ns, lv
        # 1. constant steps: introduce one step count for all leaves that moved by a constant
        for (l0, sh0, lv0, s0) in self.ancestors(st, hs, shape, level):
            ds = []; sg_ = {}
            ok = True
            for a, b in zip(lv0, leaves):
                a1 = st.current(a)
                if a1.__class__ is not Lin: ok = False; break
                d = b.sub(a1)
                if not d.const:
                    # a value made anew in every round: the parameter of the new state takes the place of the old one
                    if b.one() and sid(b) >= mark and sg_.get(sid(b), a1) == a1: sg_[sid(b)] = a1; d = Z
                    else: ok = False; break
                ds.append(d.c)
            if not ok or not any(ds): continue
            t = fresh(0, INF, 'iterations')
            n = s0.copy(); n.trace = st.trace
            # work on the new state, expressed as old + step * t
            ns = st.copy()
            slots = leaf_slots(self, ns, level)
            cand = []; made = {}
            for (setter, v), a, d in zip(slots, lv0, ds):
                if d:
                    if setter is None: cand = None; break
                    setter(ns, st.current(a).add(t, d))
                elif setter is not None and v.one() and sid(v) in DEFS and sid(v) in sg_:
                    q = sid(v)
                    if q not in made: made[q] = fresh(SYM[q][0], SYM[q][1], 'widened')
                    setter(ns, made[q])
            if cand is None: continue
            # facts: those of the new state that also hold, adjusted by the steps, in the old one
            facts = []; nes = []
            steps = sorted({abs(d) for d in ds if d})[:3]
            def back(f):
                if sg_ and any(q in sg_ for q, _ in f.t):
                    r = Lin(f.c)
                    for q, k in f.t: r = r.add(sg_[q], k) if q in sg_ else r.add(Lin(0, ((q, 1),)), k)
                    return r
                return f
            def holds0(f):
                # s0 knows symbols before the substitutions st learnt; accept only provable
                return s0.prove(back(f))
            for f in st.facts:
                if holds0(f): facts.append(f)
                for d in steps:
                    for sg in (1, -1):
                        g = f.add(t.plus(-1), sg * d)
                        g0 = f.plus(-sg * d)
                        if holds0(g0): facts.append(g)
            # constant bounds hidden in the leaves (values that are constants on both sides)
            for f in st.ne:
                if s0.prove_ne(back(f)): nes.append(f)
            # interval refinements must hold on both sides
            itv = {}
            for s, (lo, hi) in st.itv.items():
                lo0, hi0 = s0.rng(s) if s not in sg_ else s0.bounds(sg_[s]); nl, nh = min(lo, lo0), max(hi, hi0)
                if s in sg_ and nl < lo: nl = SYM[s][0]
                if s in sg_ and nh > hi: nh = SYM[s][1]
                itv[s] = (nl, nh)
            ns.itv = itv; ns.facts = tuple(dict.fromkeys(facts)); ns.ne = tuple(nes)
            # values the last round has found something out about
            f0 = set(s0.facts) | set(s0.ne)
            learnt = {q for f in st.facts + st.ne for q, _ in f.t} | {q for q in st.itv if st.itv[q] != s0.rng(q)}
            learnt |= self.landmarks(st)
            learnt = sorted(q for q in learnt if q != sid(t))[:40]
            # template bounds: old + d*t against the facts that held at entry and at the new state
            ys = [Lin(0, ((s, 1),)) for s in learnt]
            ys += [l for l in dict.fromkeys(b for b, d in zip(leaves, ds) if not d and b.t and not b.one()) if all(q != sid(t) and q not in sg_ for q, _ in l.t)][:8]
            for a, d in dict.fromkeys((st.current(a), d) for a, d in zip(lv0, ds) if d):
                v1 = a.plus(d)
                for y in ys:
                    for sg in (1, -1):
                        for tight in (1, 0):
                            g = (v1.sub(y)).mul(sg).plus(tight)           # at the new state
                            if g.const or not st.prove(g): continue
                            if not s0.prove((a.sub(y)).mul(sg).plus(tight)): continue
                            gg = (a.add(t, d).sub(y)).mul(sg).plus(tight)
                            if gg not in ns.facts: ns.facts = ns.facts + (gg,)
                            break
            gc(self, ns)
            sh, lv = canon_shape(self, ns, level)
            return ns, lv
        # 2. general: if too many alternatives, forget the leaves that differ
        if len(same) < self.alts and hs["n"] < self.nmax: return None
        (l0, sh0, lv0, s0) = same[-1]
        ns = st.copy(); slots = leaf_slots(self, ns, level); ch = False; made = {}; more = []
        ys = [Lin(0, ((q, 1),)) for q in {q for l in leaves for q, _ in l.t} if q < mark]
        par = {}
        for a, b in zip(lv0, leaves):
            if b.one() and sid(b) >= mark and sid(b) not in DEFS: par.setdefault(sid(b), a)
        diff = []
        for (setter, v), a, b in zip(slots, lv0, leaves):
            if b.t and not b.one() or b.one() and sid(b) in DEFS:
                # a value that depends on parameters in the same way on both sides
                if all(s < mark or s in par for s, _ in b.t):
                    r = Lin(b.c)
                    for s, k in b.t: r = r.add(par[s] if s in par else Lin(0, ((s, 1),)), k)
                    if st.current(r) == st.current(a): continue
            if b.one() and sid(b) >= mark and sid(b) not in DEFS:
                q = sid(b); (la, ha), (lb, hb) = s0.bounds(a), st.bounds(b); L, H = SYM[q][:2]
                ns.itv[q] = (lb if lb <= la else max(L, thr_lo(la)), hb if hb >= ha else min(H, thr_hi(ha))); continue
            if setter is None or st.current(a) == b and (not b.t or all(s < mark for s, _ in b.t)): continue
            diff.append((setter, a, b))
        pairs = list(dict.fromkeys((a, b) for _, a, b in diff))
        rel = affine(st, pairs, mark)
        ys += [l for l in {l for l in leaves if len(l.t) > 1 and all(q < mark for q, _ in l.t)} if l not in ys][:6]
        for k, (a, b) in enumerate(pairs):
            if k in rel: continue
            (la, ha), (lb, hb) = s0.bounds(a), st.bounds(b)
            lo, hi = (la if lb >= la else thr_lo(lb)), (ha if hb <= ha else thr_hi(hb))
            nv = made[a, b] = fresh(-INF, INF, 'widened'); ns.itv[sid(nv)] = (lo, hi)
        for k, (cst, terms) in rel.items():
            r = cst
            for j, q in terms: r = r.add(made[pairs[j]], q)
            made[pairs[k]] = r
        for k, (a, b) in enumerate(pairs):
            a1 = st.current(a); nv = made[a, b]
            if k in rel:
                (la, ha), (lb, hb) = s0.bounds(a), st.bounds(b)
                lo, hi = (la if lb >= la else thr_lo(lb)), (ha if hb <= ha else thr_hi(hb))
                if lo > -INF: more.append(K(lo).sub(nv))
                if hi < INF: more.append(nv.plus(-hi))
            for y in ys:
                for sg in (1, -1):
                    if st.prove(b.sub(y).mul(sg)) and s0.prove(a.sub(y).mul(sg)): more.append(nv.sub(y).mul(sg))
            if len(pairs) > 10: continue
            for j, (a2, b2) in enumerate(pairs):
                if j != k and st.prove(b.sub(b2)) and s0.prove(a.sub(a2)):
                    g = nv.sub(made[a2, b2])
                    if not g.const: more.append(g.plus(1) if st.prove(b.sub(b2).plus(1)) and s0.prove(a.sub(a2).plus(1)) else g)
        for setter, a, b in diff: setter(ns, made[a, b]); ch = True
        if not ch: return None
        ns.facts = ns.facts + tuple(more)
        gc(self, ns)
        sh, lv = canon_shape(self, ns, level)
        return ns, lv

def affine(st, pairs, mark):
    """linear relations, over values that do not change, that hold for both members of the pairs: {index: (constant, [(index, factor)])}"""
    n = len(pairs)
    if not 2 <= n <= 14: return {}
    from fractions import Fraction as Fr
    A = [(st.current(a), b) for a, b in pairs]
    if any(a.__class__ is not Lin for a, _ in A): return {}
    cols = {}
    for a, b in A:
        for q, _ in a.t:
            if q >= mark: cols.setdefault(('a', q), len(cols))
        for q, _ in b.t:
            if q >= mark: cols.setdefault(('b', q), len(cols))
        for q, _ in b.sub(a).t:
            if q < mark: cols.setdefault(('d', q), len(cols))
    cols['c'] = len(cols)
    # equations: one per column, unknowns: the factor of every pair
    M = [[Fr(0)] * n for _ in cols]
    for j, (a, b) in enumerate(A):
        for q, k in a.t:
            if q >= mark: M[cols['a', q]][j] += k
        for q, k in b.t:
            if q >= mark: M[cols['b', q]][j] += k
        d = b.sub(a)
        for q, k in d.t:
            if q < mark: M[cols['d', q]][j] += k
        M[cols['c']][j] += d.c
    # null space by elimination; the free unknowns are made the leaves that are expressed by the others
    piv = {}; r = 0
    for j in range(n):
        p = next((i for i in range(r, len(M)) if M[i][j]), None)
        if p is None: continue
        M[r], M[p] = M[p], M[r]; x = M[r][j]; M[r] = [y / x for y in M[r]]
        for i in range(len(M)):
            if i != r and M[i][j]:
                f = M[i][j]; M[i] = [y - f * z for y, z in zip(M[i], M[r])]
        piv[j] = r; r += 1
    out = {}
    for f in range(n):
        if f in piv: continue
        # leaf f + sum c_j leaf_j = constant with c_j = -M[piv j][f]
        cs = [(j, -M[i][f]) for j, i in piv.items() if M[i][f]]
        if any(c.denominator != 1 for _, c in cs): continue
        cst = A[f][1]
        for j, c in cs: cst = cst.add(A[j][1], int(c))
        if any(q >= mark for q, _ in cst.t): continue
        out[f] = (cst, [(j, -int(c)) for j, c in cs])
    return out

THR = [1, 255, (1 << 16) - 1, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]
COARSE = False
def thr_hi(n):
    for t in ([-1, 0] + THR if not COARSE else THR[3:]):
        if n <= t: return t
    return INF
def thr_lo(n):
    for t in ([1, 0, -1] if not COARSE else [0]) + [-(1 << b) for b in (15, 31, 63)]:
        if n >= t: return t
    return -INF
def sgn8(n): return n - 256 if n > 127 else n

# ---- canonical forms
class Canon:
    def __init__(self, E, st, shape=None):
        self.E = E; self.st = st; self.sr = {}; self.orank = {}; self.q = []; self.shape = shape; self.leaves = []; self.slots = []; self.softcells = E.h.softcells if E else (); self.hardobjs = E.h.hardobjs if E else ()
    def lin(self, l):
        sr = self.sr; t = l.t
        if not t: return (l.c, ())
        if len(t) == 1:
            s, k = t[0]; r = sr.get(s)
            if r is None: r = sr[s] = len(sr)
            return (l.c, ((r, k),))
        return (l.c, tuple(sorted([(sr.setdefault(s, len(sr)), k) for s, k in t])))
    def obj(self, o):
        if o[0] in ('G', 'str'): 
            return o
        if o[0] == 'L': return o
        r = self.orank.get(o)
        if r is None: r = self.orank[o] = len(self.orank); self.q.append(o)
        return r
    def val(self, v):
        c = v.__class__
        if c is Lin: 
            if self.E and v.one() and ('*', v.t[0][0]) in self.st.info:
                return ('P', self.obj(('*', v.t[0][0])), self.lin(v))
            return self.lin(v)
        if c is Ptr: return ('p', self.obj(v.o), self.lin(v.f))
        if c is tuple: return tuple([self.val(x) for x in v])
        return v
    def leaf(self, v, soft, setter):
        """in shape mode numbers are set aside"""
        if self.shape is None: return self.val(v)
        c = v.__class__
        if c is Lin:
            if v.const and not soft and self.shape == 0: return v.c
            if self.E and v.one() and (('*', v.t[0][0]) in self.st.info): return self.val(v)
            self.leaves.append(v); self.slots.append((setter, v)); return '#'
        if c is Ptr:
            if v.f.const and not soft and self.shape == 0: return ('p', self.obj(v.o), v.f.c)
            self.leaves.append(v.f)
            self.slots.append(((lambda s, l, f=setter, o=v.o: f(s, Ptr(o, l))), v.f)); return ('p', self.obj(v.o), '#')
        return self.val(v)
    def cells(self, o, soft):
        c = self.st.mem.get(o)
        if not c: return ()
        out = []
        sym = [k for k in c if k[0] == 's']; con = sorted([k for k in c if k[0] != 's'] if sym else c)
        if self.shape is None:
            val = self.val
            out = [(k, val(c[k])) for k in con]; con = ()
        for k in con:
            out.append((k, self.leaf(c[k], soft and k[1] > 8 or k[0] >= 1 << 22 or (o, k[0]) in self.softcells, lambda s, l, o=o, k=k: s.cells(o).__setitem__(k, l))))
        for k in sorted(sym, key=lambda k: (k[1].c, k[1].t, k[2:])):
            out.append((('s', self.lin(k[1])) + k[2:], self.val(c[k])))
        return tuple(out)
    def run(self, extra=None):
        st = self.st; out = []
        stk = self.E.stack if self.E and self.shape is not None else (); dd = len(st.frames) - len(stk)
        for d, f in enumerate(st.frames):
            # values of enumeration and truth types are part of the form of a state
            ty = stk[d - dd].types if stk and d >= dd else {}
            for n in sorted(f): out.append((d, n, self.leaf(f[n], ty.get(n, '?')[0] not in 'eb', lambda s, l, d=d, n=n: s.frames[d].__setitem__(n, l))))
        if extra is not None: out.append(self.val(extra))
        for k in sorted(st.g, key=str): out.append((k, self.val(st.g[k])))
        locs = sorted((o for o in st.mem if o[0] == 'L'), key=str)
        for o in locs: out.append((o, self.cells(o, o not in self.hardobjs)))
        for o in sorted((o for o in st.mem if o[0] == 'G'), key=str):
            c = self.cells(o, False)
            if c: out.append((o, c))
        i = 0
        while i < len(self.q):
            o = self.q[i]; i += 1
            inf = st.info.get(o)
            out.append((self.orank[o], inf.key() if inf else None, self.val(inf.size) if inf is not None and inf.size is not None and self.shape is None else None, self.cells(o, False), self.val(st.maps[o]) if o in st.maps else None, self.val(st.og[o]) if o in st.og else None))
        # allocated objects nothing refers to any more
        lost = {}
        for o, inf in st.info.items():
            if o[0] in 'HM' and o not in self.orank and inf.status == 'live': lost[inf.site] = lost.get(inf.site, 0) + 1
        if lost: out.append(tuple(sorted(lost.items(), key=str)))
        return out

def canon(E, st, extra=None):
    c = Canon(E, st); out = c.run(extra)
    sr = c.sr
    out.append(tuple(st.rng(s) for s in sorted(sr, key=sr.get)))
    fs = []
    for f in st.facts:
        if all(s in sr for s, _ in f.t): fs.append(c.lin(f))
    out.append(tuple(sorted(fs)))
    fs = []
    for f in st.ne:
        if all(s in sr for s, _ in f.t): fs.append(c.lin(f))
    out.append(tuple(sorted(fs)))
    return tuple(out)

def canon_shape(E, st, level):
    c = Canon(E, st, level); out = c.run()
    # the numbers that are part of the shape are compared too, so that their relation to the others is seen
    return tuple(out), c.leaves + [Lin(0, ((s, 1),)) for s in sorted(c.sr, key=c.sr.get)]
def leaf_slots(E, st, level):
    c = Canon(E, st, level); c.run(); return c.slots + [(None, Lin(0, ((s, 1),))) for s in sorted(c.sr, key=c.sr.get)]

def gc(E, st):
    """drop what is known of values and objects that nothing refers to"""
    f = getattr(E.h, 'fold', None)
    if f: f(E, st)
    c = Canon(E, st); c.run()
    sr = set(c.sr)
    # definitions keep their operands
    todo = list(sr)
    while todo:
        s = todo.pop(); d = DEFS.get(s)
        if d:
            for a in d[1]:
                if a.__class__ is Lin:
                    for q, _ in a.t:
                        if q not in sr: sr.add(q); todo.append(q)
    st.itv = {s: v for s, v in st.itv.items() if s in sr}
    st.facts = tuple(f for f in st.facts if all(s in sr for s, _ in f.t))
    st.ne = tuple(f for f in st.ne if all(s in sr for s, _ in f.t))
    for o in list(st.mem):
        if o[0] in ('H', '*') and o not in c.orank:
            i = st.info.get(o)
            if i is None or i.status == 'freed' or o[0] == '*':
                if keep_obj(E, st, o): continue
                del st.mem[o]; st.info.pop(o, None); st.maps.pop(o, None); st.og.pop(o, None)
    if len(st.sub) > 60: st.sub = st.sub[-60:]

def keep_obj(E, st, o):
    f = getattr(E.h, 'keep', None)
    return f(E, st, o) if f else False
