"""What the analysis knows of the C library and the kernel: which objects a call may change, the range
of its result and its failure cases.  Every call also appears in the state's event log where a rule asks
for it (Hooks.event)."""
import re
from absint import *
from prog import AnalysisBroken

def ret(st, v): return [(st, v)]
def i32(lo, hi, d): return fresh(lo, hi, d)

def ev_(E, st, *x):
    f = getattr(E.h, 'event', None)
    if f: f(E, st, *x)

def m_malloc(E, st, a, I):
    sz = a[0] if a[0].__class__ is Lin else fresh(0, INF)
    o = E.alloc(st, sz, '%s:%d' % (E.F.name if E.F else '?', E.line))
    return ret(st, Ptr(o))
def m_calloc(E, st, a, I):
    r = m_malloc(E, st, [E.arith(st, '*', a[0], a[1], 'u64')], I)
    o = r[0][1].o; st.info[o] = st.info[o].upd(default='zero'); return r
def m_realloc(E, st, a, I):
    o = E.alloc(st, a[1] if a[1].__class__ is Lin else fresh(0), '%s:%d' % (E.F.name if E.F else '?', E.line), 'lazy')
    if a[0].__class__ is Ptr:
        for k, v in st.mem.get(a[0].o, {}).items(): st.cells(o)[k] = v
        E.free(st, a[0])
    return ret(st, Ptr(o))
def m_free(E, st, a, I):
    e = E.free(st, a[0])
    if e: E.h.badfree(E, st, a[0], e)
    elif a[0].__class__ is Ptr: ev_(E, st, 'free', a[0].o)
    elif a[0].__class__ is Lin and a[0].t:
        p = E.topointer(st, a[0], None)
        if p is not None: ev_(E, st, 'free', p.o)
    return ret(st, None)
def m_strdup(E, st, a, I):
    o = E.alloc(st, fresh(1, 1 << 20), '%s:%d' % (E.F.name if E.F else '?', E.line), 'lazy'); return ret(st, Ptr(o))

def memcmp_like(E, st, a, I, n):
    """equal and different are separate cases; the outcome is remembered"""
    if a[0] == a[1] and a[0].__class__ is Ptr: return [(st, Z)]
    cur = lambda x: st.current(x) if x.__class__ is Lin else x
    for x, y, k, r in st.g.get('eq') or ():
        if {cur(x), cur(y)} == {cur(a[0]), cur(a[1])} and (k == n or cur(k) == cur(n)): return [(st, Z if r == 1 else cur(r))]
    s2 = st.copy(); eq = st.g.get('eq') or ()
    v = fresh(-255, 255, 'memcmp'); s2.add_ne(v)
    st.g['eq'] = eq + ((a[0], a[1], n, 1),); s2.g['eq'] = eq + ((a[0], a[1], n, v),)
    return [(st, Z), (s2, v)]
def m_memcmp(E, st, a, I):
    E.h.access(E, st, a[0], a[2], 'read'); E.h.access(E, st, a[1], a[2], 'read')
    return memcmp_like(E, st, a, I, a[2])
def m_strcmp(E, st, a, I):
    if all(x.__class__ is Ptr and x.o[0] == 'str' and x.f == Z for x in a[:2]):
        p, q = a[0].o[1], a[1].o[1]; return ret(st, K((p > q) - (p < q)))
    return memcmp_like(E, st, a, I, 'str')
def m_strncmp(E, st, a, I):
    return memcmp_like(E, st, a, I, ('str', a[2]))
def touch(E, st, p, n, what):
    """n bytes at p are overwritten with unknown bytes"""
    E.h.access(E, st, p, n, what)
    if p.__class__ is Lin: p = E.topointer(st, p, None)
    if p.__class__ is Ptr and p.o in st.og and any(k.__class__ is tuple and k[0] in ('txt', 'len', 'cap') for k, _ in st.og[p.o]):
        at = st.current(p.f); og = st.og[p.o]
        # a piece of text that ends before them stays
        kept = {k[1] for k, v in og if k.__class__ is tuple and k[0] in ('len', 'cap') and v.__class__ is Lin and st.prove(st.current(k[1]).add(st.current(v)).sub(at))}
        st.og[p.o] = tuple((k, v) for k, v in og if not (k.__class__ is tuple and k[0] in ('txt', 'len', 'cap')) or k[1] in kept)
    if p.__class__ is Ptr:
        if p.f.const and n.__class__ is Lin and n.const: E.havoc(st, p.o, p.f.c * 8, (p.f.c + n.c) * 8)
        elif p.f.const and n.__class__ is Lin: 
            h = st.hi(n); E.havoc(st, p.o, p.f.c * 8, (p.f.c + h) * 8)
        else: E.havoc(st, p.o)
def m_memcpy(E, st, a, I):
    E.h.access(E, st, a[1], a[2], 'read')
    d, s, n = a
    f = getattr(E.h, 'copytext', None)
    parts = f(E, st, d, s, n) if f else None
    if d.__class__ is Ptr and s.__class__ is Ptr and n.__class__ is Lin and n.const and d.f.const and s.f.const:
        E.h.access(E, st, d, n, 'write')
        src = {k: v for k, v in st.mem.get(s.o, {}).items() if k[0] != 's' and s.f.c * 8 <= k[0] and k[0] + k[1] <= (s.f.c + n.c) * 8}
        E.havoc(st, d.o, d.f.c * 8, (d.f.c + n.c) * 8); c = st.cells(d.o)
        for k, v in src.items(): c[(k[0] - s.f.c * 8 + d.f.c * 8, k[1])] = v
    else: touch(E, st, d, n, 'write')
    if parts is not None and d.__class__ is Ptr and d.o in st.info: st.og[d.o] = tuple((k, v) for k, v in st.og.get(d.o, ()) if k != 'parts') + (('parts', parts),)
    ev_(E, st, 'copy', d, s, n)
    return ret(st, d)
def m_memset(E, st, a, I):
    d, v, n = a
    if d.__class__ is Ptr and v == Z and n.__class__ is Lin and n.const and d.f.const: 
        E.h.access(E, st, d, n, 'write'); E.zero(st, d.o, d.f.c, n.c)
    else: touch(E, st, d, n, 'write')
    return ret(st, d)
def strlen_of(E, st, p):
    if p.__class__ is Ptr and p.o[0] == 'str' and p.f.const: 
        s = p.o[1][p.f.c:]; return K(len(s.split('\0')[0]))
    return None
def m_strlen(E, st, a, I):
    n = strlen_of(E, st, a[0])
    if n is None:
        if a[0].__class__ is Ptr:
            c = st.og.get(a[0].o)
            n = dict(c).get('strlen') if c and a[0].f == Z else None
        if n is None: n = fresh(0, 1 << 31, 'strlen')
    return ret(st, n)
def m_strcpy(E, st, a, I):
    n = strlen_of(E, st, a[1])
    if a[0].__class__ is Ptr and n is not None and a[0].f.const:
        E.h.access(E, st, a[0], n.plus(1), 'write')
        s = a[1].o[1][a[1].f.c:]
        E.havoc(st, a[0].o, a[0].f.c * 8, (a[0].f.c + n.c + 1) * 8)
        if n.c <= 400:
            c = st.cells(a[0].o)
            for i, ch in enumerate(s + '\0'): c[((a[0].f.c + i) * 8, 8)] = K(sgn8(ord(ch)))
    else: touch(E, st, a[0], fresh(0, 1 << 31), 'write')
    return ret(st, a[0])
def desc(E, st, a, fmt, args):
    f = fmt.o[1][fmt.f.c:] if fmt.__class__ is Ptr and fmt.o[0] == 'str' and fmt.f.const else E.h.consttext(st, fmt) if hasattr(E.h, 'consttext') else None
    out = []
    for x in args:
        if x.__class__ is Ptr:
            d = contents(E, st, x)
            if d is not None: x = d
        out.append(x)
    return ('fmt', f, tuple(out))
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcspfFeEgGm%n])')
def fmtlen(E, st, d, args):
    """least and greatest length of a formatted text"""
    f = d[1]
    if f is None: return 0, 1 << 20
    lo = hi = 0; last = 0; i = 0
    for m in CONV.finditer(f):
        lo += m.start() - last; hi += m.start() - last; last = m.end(); c = m.group(5)
        if c == '%': lo += 1; hi += 1; continue
        wid = m.group(2); pr = m.group(3)
        w = 0
        if wid == '*': i += 1; w = 1 << 20
        elif wid: w = int(wid)
        P = None
        if pr == '*': P = args[i] if i < len(args) else None; i += 1
        elif pr: P = K(int(pr))
        a = args[i] if i < len(args) else None; i += 1
        if c in 'diouxX':
            big = m.group(4) in ('l', 'll', 'z', 'j', 't'); sg = c in 'di'
            l, h = (-(1 << 63) if big else -(1 << 31), (1 << 63) - 1 if big else (1 << 31) - 1) if sg else (0, (1 << 64) - 1 if big else (1 << 32) - 1)
            if a.__class__ is Lin:
                b = st.bounds(a)
                if b[0] >= l: l = b[0]
                if b[1] <= h: h = b[1]
            F = (lambda n: '%d' % n) if c in 'diu' else (lambda n: '%o' % n) if c == 'o' else (lambda n: '%x' % n)
            l, h = int(l), int(h); mx = max(len(F(l)), len(F(h))); mn = 1 if l <= 0 <= h or l < 0 else min(len(F(l)), len(F(h)))
            if P is not None: mx = max(mx, P.c + 1 if P.const else 1 << 20)
        elif c == 'c': mn = mx = 1
        elif c == 's':
            n = strconst(E, st, a)
            mn, mx = (len(n), len(n)) if n is not None else (0, 1 << 20)
            if P is not None: mx = min(mx, st.hi(P) if P.__class__ is Lin else mx); mn = 0
        elif c in 'fFeEgG': mn, mx = 1, 330
        elif c == 'p': mn, mx = 3, 20
        else: mn, mx = 0, 1 << 20
        lo += max(mn, w if w < 1 << 20 else 0); hi += max(mx, w)
    lo += len(f) - last; hi += len(f) - last
    return lo, min(hi, 1 << 21)
def strconst(E, st, a):
    if a.__class__ is Ptr and a.o[0] == 'str' and a.f.const: return a.o[1][a.f.c:]
    return E.h.consttext(st, a) if hasattr(E.h, 'consttext') else None
def contents(E, st, p):
    """what a string was last formatted from, when it was"""
    if p.__class__ is not Ptr: return None
    if p.o[0] == 'str': return p
    g = st.og.get(p.o)
    if not g: return None
    for k, v in g:
        if k == ('txt', p.f): return v
    return None
def set_contents(st, p, d, n=None):
    g = tuple((k, v) for k, v in st.og.get(p.o, ()) if not (k.__class__ is tuple and k[0] in ('txt', 'len', 'cap') and k[1] == p.f))
    st.og[p.o] = g + ((('txt', p.f), d),) + (((('len', p.f), n),) if n is not None else ())
def m_snprintf(E, st, a, I):
    ev_(E, st, 'format', a[2], a[3:])
    d = desc(E, st, a[0], a[2], a[3:])
    lo, hi = fmtlen(E, st, d, a[3:])
    touch(E, st, a[0], a[1], 'write')
    r = fresh(lo, hi, 'snprintf')
    if a[0].__class__ is Ptr:
        set_contents(st, a[0], d, r)
        if a[1].__class__ is Lin: st.og[a[0].o] += ((('cap', a[0].f), a[1]),)
    return ret(st, r)
def m_sprintf(E, st, a, I):
    ev_(E, st, 'format', a[1], a[2:])
    d = desc(E, st, a[0], a[1], a[2:])
    lo, hi = fmtlen(E, st, d, a[2:]); r = fresh(lo, hi, 'sprintf')
    touch(E, st, a[0], r.plus(1), 'write-str' if hi >= 1 << 20 else 'write')
    if a[0].__class__ is Ptr: set_contents(st, a[0], d, r)
    return ret(st, r)

def path_of(E, st, p):
    d = contents(E, st, p)
    return d if d is not None else p
def m_open(E, st, a, I):
    p = path_of(E, st, a[0])
    s2 = st.copy(); f = fresh(0, (1 << 31) - 1, 'fd')
    ev_(E, st, 'open', p, a[1]); ev_(E, st, 'opened', f, a[1])
    return [(st, f), (s2, MONE)]
def okfail(name, lo=0):
    def m(E, st, a, I):
        s2 = st.copy()
        ev_(E, st, name, *a); ev_(E, s2, name + '!', *a)
        return [(st, Z), (s2, MONE)]
    return m
def m_unlink(E, st, a, I):
    ev_(E, st, 'unlink', path_of(E, st, a[0])); return ret(st, fresh(-1, 0, 'unlink'))
def m_rename(E, st, a, I):
    s2 = st.copy()
    ev_(E, st, 'rename', path_of(E, st, a[0]), path_of(E, st, a[1])); ev_(E, s2, 'rename!', path_of(E, st, a[0]), path_of(E, st, a[1]))
    return [(st, Z), (s2, MONE)]
def m_close(E, st, a, I):
    ev_(E, st, 'close', a[0]); return ret(st, fresh(-1, 0, 'close'))
def m_fdopen(E, st, a, I):
    s2 = st.copy(); o = E.alloc(st, K(216), 'fdopen', 'lazy'); st.info[o] = st.info[o].upd(kind='ext'); st.og[o] = (('fd', a[0]),)
    return [(st, Ptr(o)), (s2, Z)]
def m_fclose(E, st, a, I):
    if a[0].__class__ is Ptr:
        g = dict(st.og.get(a[0].o, ()))
        if 'fd' in g: ev_(E, st, 'close', g['fd'])
        st.info[a[0].o] = st.info[a[0].o].upd(status='freed')
    return ret(st, fresh(-1, 0, 'fclose'))
def rw(name):
    def m(E, st, a, I):
        n = a[2]
        fd, buf = a[0], a[1]
        E.h.access(E, st, buf, n, 'read' if name == 'write' else 'write')
        out = []
        if fd.__class__ is Lin and fd.const and fd.c < 0: ev_(E, st, name, fd, buf, n, MONE); return [(st, MONE)]
        s2 = st.copy(); s3 = st.copy() if name == 'read' else None
        # n bytes or fewer
        k = fresh(1 if name == 'read' else 0, 1 << 31, name)
        if n.__class__ is Lin and st.add_le(k.sub(n)):
            if name == 'read': touch_data(E, st, buf, k)
            ev_(E, st, name, fd, buf, n, k); out.append((st, st.current(k)))
        if s3 is not None:
            ev_(E, s3, name, fd, buf, n, Z); out.append((s3, Z))
        ev_(E, s2, name, fd, buf, n, MONE); out.append((s2, MONE))
        return out
    return m
def prw(name):
    def m(E, st, a, I):
        fd, buf, n, off = a[:4]; E.h.access(E, st, buf, n, 'read' if name == 'pwrite' else 'write')
        if fd.__class__ is Lin and fd.const and fd.c < 0: ev_(E, st, name, fd, buf, n, MONE, off); return [(st, MONE)]
        out = []; s2 = st.copy(); k = fresh(0, 1 << 31, name)
        if n.__class__ is Lin and st.add_le(k.sub(n)):
            if name == 'pread': touch_data(E, st, buf, k)
            ev_(E, st, name, fd, buf, n, st.current(k), off); out.append((st, st.current(k)))
        ev_(E, s2, name, fd, buf, n, MONE, off); out.append((s2, MONE))
        return out
    return m
def touch_data(E, st, p, n):
    if p.__class__ is Ptr and p.o[0] != 'str': 
        c = st.mem.get(p.o)
        f = getattr(E.h, 'readinto', None)
        if f and f(E, st, p, n): return
        if p.f.const and n.__class__ is Lin and n.const: E.havoc(st, p.o, p.f.c * 8, (p.f.c + n.c) * 8)
        else: E.havoc(st, p.o, p.f.c * 8 if p.f.const else None, (st.hi(n) + p.f.c) * 8 if p.f.const else None)
def m_sendfile(E, st, a, I):
    out = []; s2 = st.copy(); s3 = st.copy()
    k = fresh(1, 1 << 31, 'sendfile')
    n = a[3]
    o = None; old = None
    if a[2].__class__ is Ptr: old = E.load(st, (a[2].o, a[2].f, 0, 64), 'i64')
    if a[1].__class__ is Lin and a[1].const and a[1].c < 0: ev_(E, st, 'sendfile', a[0], a[1], old, n, MONE); return [(st, MONE)]
    if st.add_le(k.sub(n) if n.__class__ is Lin else k.plus(-(1 << 31))):
        k2 = st.current(k)
        ev_(E, st, 'sendfile', a[0], a[1], old, n, k2)
        if a[2].__class__ is Ptr: E.store(st, (a[2].o, a[2].f, 0, 64), st.current(old).add(k2) if old.__class__ is Lin else fresh(), 'i64')
        out.append((st, k2))
    ev_(E, s3, 'sendfile', a[0], a[1], old, n, Z); out.append((s3, Z))
    ev_(E, s2, 'sendfile', a[0], a[1], old, n, MONE); out.append((s2, MONE))
    return out
def m_lseek(E, st, a, I):
    if a[0].__class__ is Lin and a[0].const and a[0].c < 0: ev_(E, st, 'lseek!', a[0], a[1], a[2]); return [(st, MONE)]
    s2 = st.copy()
    ev_(E, st, 'lseek', a[0], a[1], a[2]); ev_(E, s2, 'lseek!', a[0], a[1], a[2])
    v = a[1] if a[2] == Z else fresh(0, (1 << 62), 'lseek')
    out = []
    if v.__class__ is not Lin or st.add_le(v.mul(-1)): out.append((st, st.current(v)))
    return out + [(s2, MONE)]
def m_fork(E, st, a, I):
    s2 = st.copy(); s3 = st.copy()
    ev_(E, st, 'fork', 'parent'); ev_(E, s2, 'fork', 'child')
    return [(st, fresh(1, 1 << 22, 'pid'))] + ([] if getattr(E.h, 'parent_only', False) else [(s2, Z)]) + [(s3, MONE)]
def m_exit(E, st, a, I):
    ev_(E, st, 'exit', a[0]); return []
def m_const(lo, hi, name):
    def m(E, st, a, I):
        ev_(E, st, name, *a); return ret(st, fresh(lo, hi, name))
    return m
def m_errno(E, st, a, I):
    o = ('G', 'g:errno'); st.info.setdefault(o, Info('global', 'i32', K(4))); E.havoc(st, o); return ret(st, Ptr(o))
def m_void(E, st, a, I): return ret(st, None)
def m_hash(E, st, a, I):
    """MurmurHash3: a function of the bytes hashed"""
    key, n, seed, out = a
    k = key if key.__class__ is not Lin else key
    v = uninterp('hash', (k if k.__class__ in (Ptr, Lin) else Z, n, seed), 0, (1 << 32) - 1)
    E.h.access(E, st, key, n, 'read')
    if out.__class__ is Ptr: E.store(st, (out.o, out.f, 0, 32), v, 'u32')
    return ret(st, None)
def m_memchr(E, st, a, I):
    E.h.access(E, st, a[0], a[2], 'read')
    s2 = st.copy(); k = fresh(0, INF, 'memchr')
    if a[0].__class__ is Ptr and st.add_le(k.plus(1).sub(a[2])): return [(st, Ptr(a[0].o, a[0].f.add(st.current(k)))), (s2, Z)]
    return [(s2, Z)]
def m_getline(E, st, a, I):
    s2 = st.copy(); n = fresh(1, 1 << 30, 'getline')
    o = E.alloc(st, n.plus(1), 'getline', 'lazy'); st.info[o] = st.info[o].upd(kind='ext')
    old = E.load(st, (a[0].o, a[0].f, 0, 64), 'p:i8')
    E.store(st, (a[0].o, a[0].f, 0, 64), Ptr(o), 'p:i8')
    ev_(E, st, 'getline', Ptr(o), n)
    return [(st, n), (s2, MONE)]
def m_gettimeofday(E, st, a, I):
    if a[0].__class__ is Ptr: E.havoc(st, a[0].o)
    return ret(st, Z)
def m_sscanf(E, st, a, I):
    ev_(E, st, 'scan', a[1], a[2:])
    f = a[1].o[1] if a[1].__class__ is Ptr and a[1].o[0] == 'str' else ''
    for x in a[2:]:
        if x.__class__ is Ptr: E.havoc(st, x.o, x.f.c * 8, x.f.c * 8 + 64) if x.f.const else E.havoc(st, x.o)
    n = len(a) - 2 - f.count('%n')
    return ret(st, fresh(-1, n, 'sscanf'))
def m_waitpid(E, st, a, I):
    if len(a) > 1 and a[1].__class__ is Ptr: E.havoc(st, a[1].o)
    ev_(E, st, 'waitpid', *a)
    return ret(st, fresh(-1, 1 << 22, 'waitpid'))
def m_write_only(E, st, a, I): return ret(st, fresh(0, 1 << 20))

MODELS = dict(malloc=m_malloc, calloc=m_calloc, realloc=m_realloc, free=m_free, strdup=m_strdup, memcmp=m_memcmp, strcmp=m_strcmp,
    strncmp=m_strncmp, strcasecmp=m_strcmp, strncasecmp=m_strncmp, memcpy=m_memcpy, memmove=m_memcpy, memset=m_memset, strlen=m_strlen, strcpy=m_strcpy, snprintf=m_snprintf, sprintf=m_sprintf,
    setsockopt=m_const(-1, 0, 'setsockopt'), open=m_open, open64=m_open, unlink=m_unlink, rename=m_rename, close=m_close, fdopen=m_fdopen, fclose=m_fclose, read=rw('read'), write=rw('write'), pwrite=prw('pwrite'), pwrite64=prw('pwrite'), pread=prw('pread'), pread64=prw('pread'),
    sendfile64=m_sendfile, sendfile=m_sendfile, lseek64=m_lseek, lseek=m_lseek, fork=m_fork, exit=m_exit, _exit=m_exit, abort=m_exit,
    ftruncate=okfail('ftruncate'), ftruncate64=okfail('ftruncate'), epoll_ctl=okfail('epoll_ctl'), fdatasync=okfail('fdatasync'), fsync=okfail('fdatasync'),
    access=okfail('access'), mkdir=okfail('mkdir'), system=m_const(-1, 255 << 8, 'system'), printf=m_write_only, fprintf=m_write_only,
    puts=m_write_only, putchar=m_write_only, fputs=m_write_only, fwrite=m_write_only, putc=m_write_only, fputc=m_write_only,
    perror=m_void, fflush=m_write_only, __errno_location=m_errno, MurmurHash3_x86_32=m_hash, memchr=m_memchr, getline=m_getline,
    gettimeofday=m_gettimeofday, sscanf=m_sscanf, waitpid=m_waitpid, usleep=m_write_only, sleep=m_write_only, assert_fail=m_exit, __assert_fail=m_exit)
MODELS['$strcpy'] = m_strcpy
