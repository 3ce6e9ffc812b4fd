"""The saved snapshot: how it is written, replaced and waited for.  The names of the saved files are those the start
opens for reading; db_lru_gc, db_close and db_handle_sigchld are interpreted with a small state for every file (left
over, fresh, copied, incomplete) and for the process that writes the snapshot."""
from dbsuite import *
import libc, flow
DIR = '/DIR'
ERRNO = ('G', 'g:errno'); PEND = ('G', '$pending'); PP = (1 << 22, 64); PN = ((1 << 22) + 64, 64); PF = ((1 << 22) + 128, 64)
EINTR, ECHILD = 4, 10
O_CREAT, O_EXCL, O_TRUNC, WNOHANG = 0o100, 0o200, 0o1000, 1

def textof(E, st, p, depth=0):
    """the text at p, with \\1 for what is not constant"""
    d = libc.contents(E, st, p) if p.__class__ is Ptr else p
    if d.__class__ is Ptr: return d.o[1][st.current(d.f).c:] if d.o[0] == 'str' and st.current(d.f).const else '\1'
    if d.__class__ is tuple and d[0] == 'fmt' and d[1] is not None and depth < 12:
        out = ''; last = 0; i = 0
        for m in libc.CONV.finditer(d[1]):
            out += d[1][last:m.start()]; last = m.end(); c = m.group(5)
            if c == '%': out += '%'; continue
            if m.group(2) == '*' or m.group(3) == '*': return '\1'
            a = d[2][i] if i < len(d[2]) else None; i += 1
            if c == 's': out += textof(E, st, a, depth + 1)
            elif a.__class__ is Lin and st.current(a).const and not m.group(2): out += '%d' % st.current(a).c if c in 'diu' else chr(st.current(a).c & 255) if c == 'c' else '\1'
            else: out += '\1'
        return out + d[1][last:]
    return '\1'
def norm(t): return re.sub('/+', '/', t)

class Snap(DB):
    mode = 'flush'; lines = False
    def __init__(self, P):
        super().__init__(P); self.saved = set(); self.block = self.blocksave = None; self.seen = {}; self.pidcells = set(); self.stubs = set(); self.event_on = False
    def R(self, E, st, rule, msg, props=('C13',), where=None): self.report(E, st, rule, props, msg, where)
    def call(self, E, st, name, args, I):
        m = getattr(self, 'x_' + name.split('/')[0], None)
        if m: return m(E, st, [st.current(a) if a.__class__ is Lin else a for a in args], I)
        if name in self.stubs and E.stack: return [(st, None if I is None or I[5] == 'v' else fresh_t(I[5], name))]
        if name in ('fopen', 'fopen64', 'open_memstream', 'mmap', 'dprintf', 'writev', 'pwrite', 'pwrite64', 'posix_spawn', 'execl', 'execv', 'execlp', 'vfork') and (name[:5] != 'fopen' or self.mode == 'flush'): raise Budget('%s is used to write the snapshot, which is not modelled' % name)
        return World.call(self, E, st, name, args, I)
    def event(self, E, st, *x): pass
    def fold(self, E, st):
        self.pending(E, st)
        if self.mode == 'start' and not self.lines:
            p = self.peek(st, self.G, self.df, 'free_blocks')
            while p.__class__ is Ptr:
                n = p.o; p = self.peek(st, n, self.nf, 'next'); st.mem.pop(n, None); st.info.pop(n, None)
            for n in ('free_blocks', 'blocks_free'):
                if self.peek(st, self.G, self.df, n) is not None: self.put(st, self.G, self.df, n, Z)
        pin = []
        def see(v):
            if v.__class__ is Ptr:
                of = dict(st.og.get(v.o, ())).get('of')
                if of.__class__ is Ptr: pin.append(of.o)
            elif v.__class__ is tuple:
                for x in v: see(x)
        see(st.g.get('line', ())); see(st.g.get('chunk', ()))
        for f in st.frames:
            for v in f.values(): see(v)
        for o in st.mem:
            if o[0] == 'L':
                for v in st.mem[o].values(): see(v)
        self.pinned = tuple(pin)
        super().fold(E, st)
    def deepfold(self, E, st):
        if self.mode != 'flush': return
        near = {('*', st.current(v).t[0][0]) for f in st.frames for v in f.values() if v.__class__ is Lin and st.current(v).__class__ is Lin and st.current(v).one()}
        for o in st.mem:
            if o[0] == '*' and o not in near and o in st.info and 'block_free_node' in str(st.info[o].type): st.cells(o).clear()
        st.g.pop('blk', None)
        # positions in hash tables are any position (nothing is said about which elements are visited in which order)
        for m in st.maps:
            if m in st.mem:
                self.fills(E, st, m)
                self.put(st, m, self.hf, 'n_buckets', fresh(0, (1 << 32) - 1, 'n_buckets'))
        dd = len(st.frames) - len(E.stack)
        for d, f in enumerate(st.frames):
            if d < dd: continue
            F = E.stack[d - dd]
            for n in f:
                if F.types.get(n) == 'u32' and f[n].__class__ is Lin: f[n] = fresh(0, (1 << 32) - 1, n)
    def reset_blocks(self, E, st): pass
    def end_blocks(self, *a, **k): pass
    def set_errno(self, st, v): st.info.setdefault(ERRNO, Info('global', 'i32', K(4))); st.cells(ERRNO)[(0, 32)] = K(v) if v.__class__ is int else v
    def x___errno_location(self, E, st, a, I): st.info.setdefault(ERRNO, Info('global', 'i32', K(4))); return [(st, Ptr(ERRNO))]
    # ---- files
    def fs(self, st, p): return dict(st.g.get('fs', ())).get(p)
    def setfs(self, st, p, v):
        d = dict(st.g.get('fs', ())); d[p] = v; st.g['fs'] = tuple(sorted(d.items()))
    def path(self, E, st, p):
        t = norm(textof(E, st, p))
        if self.mode == 'flush' and ('\1' in t or not t): raise Budget('the name of a file is not understood')
        return t
    def role(self, st): return st.g.get('role', 'self')
    def fail(self, st): st.g['fail'] = 1
    def failed(self, st): s = st.copy(); self.fail(s); self.set_errno(s, fresh(1, 4095, 'errno')); return s
    def touches(self, E, st, p):
        """p is one of the files of a snapshot, saved or being written"""
        if '\1' in p or self.mode != 'flush': return
        self.ob('operations on the files of a snapshot')
        if self.role(st) != 'child' and st.g.get('kid') is not None:
            self.R(E, st, 'overlap', 'the files of a snapshot are used (%s) while the process that writes one may still run' % p)
    def x_open(self, E, st, a, I):
        p = self.path(E, st, a[0]); fl = a[1].c if a[1].__class__ is Lin and a[1].const else None
        s2 = self.failed(st); f = fresh(3, (1 << 31) - 1, 'fd')
        if self.mode == 'start':
            wr = fl is None or fl & (O_CREAT | O_TRUNC)
            if not wr and '\1' not in p: self.saved.add(p); self.seen.setdefault('read', set()).add(p); st.g['opened'] = tuple(sorted(set(st.g.get('opened', ())) | {p}))
            elif fl is not None and fl & O_CREAT: self.seen.setdefault('created', set()).add(p); self.created(E, st, p, fl)
            st.g['fds'] = st.g.get('fds', ()) + ((f, p),)
            return [(st, f), (s2, MONE)]
        if fl is None: raise Budget('flags of open')
        if fl & 3:
            self.touches(E, st, p)
            if p in self.saved: self.R(E, st, 'saved-opened', 'the saved file %s is opened for writing' % p)
            new = fl & O_TRUNC or fl & O_CREAT and (fl & O_EXCL or self.fs(st, p) == ('none',))
            self.setfs(st, p, ('fresh', self.role(st), '') if new else ('stale',))
            st.g['fds'] = st.g.get('fds', ()) + ((f, p),); self.newfile(E, st, p)
        return [(st, f), (s2, MONE)]
    x_open64 = x_open
    def created(self, E, st, p, fl): pass
    def newfile(self, E, st, p):
        st.g.pop('line', None); st.info.setdefault(PEND, Info('global', 'i64', K(24))); st.cells(PEND)[PF] = self.get(E, st, self.G, self.df, 'free_blocks')
    def fdpath(self, st, fd):
        return next((p for f, p in st.g.get('fds', ()) if st.current(f) == fd), None)
    def x_close(self, E, st, a, I):
        st.g['fds'] = tuple((f, p) for f, p in st.g.get('fds', ()) if st.current(f) != a[0])
        return [(st, Z)]
    def x_unlink(self, E, st, a, I):
        p = self.path(E, st, a[0])
        if self.mode == 'start':
            if p in self.saved: self.R(E, st, 'saved-removed', 'the saved file %s is removed at the start' % p)
            return [(st, fresh(-1, 0, 'unlink'))]
        self.touches(E, st, p)
        if p in self.saved: self.R(E, st, 'saved-removed', 'the saved file %s is removed before a new one takes its place' % p)
        s2 = st.copy(); self.setfs(st, p, ('none',)); self.set_errno(s2, fresh(1, 4095, 'errno'))
        return [(st, Z), (s2, MONE)]
    def x_remove(self, E, st, a, I): return self.x_unlink(E, st, a, I)
    def x_ftruncate(self, E, st, a, I):
        p = self.fdpath(st, a[0])
        if p in self.saved: self.R(E, st, 'saved-written', 'the saved file %s is truncated' % p)
        if p is not None and self.mode == 'flush' and a[1] == Z: self.setfs(st, p, ('fresh', self.role(st), ''))
        return [(st, Z), (self.failed(st), MONE)]
    x_ftruncate64 = x_ftruncate
    def x_truncate(self, E, st, a, I):
        if self.path(E, st, a[0]) in self.saved: self.R(E, st, 'saved-written', 'a saved file is truncated')
        return [(st, Z), (self.failed(st), MONE)]
    # what was not written of a piece of data must be written next
    def pending(self, E, st):
        c = st.mem.get(PEND)
        if not c or PP not in c: return None
        p, n = c[PP], st.current(c[PN])
        if p.__class__ is Ptr: p = Ptr(p.o, st.current(p.f))
        if n == Z or st.prove(n):
            c = st.cells(PEND); c.pop(PP); c.pop(PN); x = st.g.pop('chunk', None); self.written(E, st, x); return None
        return p, n
    # ---- the records of the index
    def pieces(self, E, st, x):
        path, p, n, d, ln = x; n = st.current(n) if n.__class__ is Lin else n
        if p.__class__ is Ptr and p.o[0] == 'str' and p.f.const and n.const: return (('lit', p.o[1][p.f.c:p.f.c + n.c]),)
        if d.__class__ is tuple and d[0] == 'fmt' and d[1] is not None:
            if ln is None or not self.eqp(st, ln, n): return (('?',),)
            cap = dict(st.og.get(p.o, ())).get(('cap', p.f))
            if cap.__class__ is Lin and not st.prove(st.current(ln).plus(1).sub(st.current(cap))): self.bad(E, st, 'record', 'a record may be longer than the text it is assembled in, and cut off')
            out = []; last = 0; i = 0
            for m in libc.CONV.finditer(d[1]):
                if m.start() > last: out.append(('lit', d[1][last:m.start()]))
                last = m.end(); c = m.group(5)
                if c == '%': out.append(('lit', '%')); continue
                if m.group(1) or m.group(2) or m.group(3) or i >= len(d[2]): return (('?',),)
                a = d[2][i]; i += 1
                if c == 's' and a.__class__ is Ptr and a.o[0] == 'str' and a.f.const: out.append(('lit', a.o[1][a.f.c:])); continue
                out.append(('num', (m.group(4) or '') + c, a))
            if last < len(d[1]): out.append(('lit', d[1][last:]))
            return tuple(out)
        if p.__class__ is Ptr and dict(st.og.get(p.o, ())).get('k') == 'key': return (('mem', p, n),)
        if n.__class__ is Lin and n == Z: return ()
        return (('?',),)
    def written(self, E, st, x):
        if x is None or x[0] in self.saved: return
        if st.g.get('unclear'): st.g.pop('line', None); return
        line = list(st.g.get('line', ()))
        new = self.pieces(E, st, x)
        if any(q[0] == '?' for q in new): st.g['unclear'] = 1; st.g.pop('line', None); return       # a text nothing is known about
        for q in new:
            if q[0] == 'lit' and line and line[-1][0] == 'lit': line[-1] = ('lit', line[-1][1] + q[1])
            else: line.append(q)
            while line and line[-1][0] == 'lit' and '\n' in line[-1][1]:
                a, b = line[-1][1].split('\n', 1); self.record(E, st, line[:-1] + ([('lit', a)] if a else [])); line = [('lit', b)] if b else []
        st.g['line'] = tuple(line)
        if not line: st.g.pop('line', None)
    def whole(self, E, st): return not st.g.get('line') or any(q[0] == '?' for q in st.g['line'])
    def bad(self, E, st, rule, msg): self.R(E, st, rule, msg, ('C12',))
    def record(self, E, st, line):
        self.ob('records written')
        if any(q[0] == '?' for q in line): st.g['unclear'] = 1; return
        cur = lambda v: st.current(v) if v.__class__ is Lin else v
        if line and line[0][0] == 'num' and line[0][1] == 'c' and cur(line[0][2]).const: line = [('lit', chr(cur(line[0][2]).c & 255))] + line[1:]
        out = []
        for q in line:
            if q[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + q[1])
            else: out.append(q)
        line = out; k = line[0][1][:2] if line and line[0][0] == 'lit' else ''
        if line and line[0][0] == 'num' and line[0][1] == 'c': st.g['unclear'] = 1; return
        if k == 'f:':
            if [q[0] for q in line] != ['lit', 'num'] or line[0][1] != 'f:': return self.bad(E, st, 'record', 'a free block is saved in another form than f:NUMBER')
            v = cur(line[1][2]); x = st.mem.get(PEND, {}).get(PF); x = st.current(x) if x.__class__ is Lin else x
            o = self.pobj(st, x) if x is not None else None
            if line[1][1] not in ('u', 'lu', 'd', 'ld', 'zu', 'llu', 'lld') : self.bad(E, st, 'record', 'the number of a free block is not written as a decimal number')
            if o is None: return
            if not self.eqp(st, v, self.get(E, st, o, self.nf, 'block_number')): self.bad(E, st, 'free-block', 'what is saved as a free block is not the next free block')
            st.cells(PEND)[PF] = self.get(E, st, o, self.nf, 'next')
        elif k == 't:':
            if [q[0] for q in line] not in (['lit', 'mem'], ['lit']) or line[0][1] != 't:': return self.bad(E, st, 'record', 'a table is saved in another form than t:NAME')
            if len(line) == 1: st.g['unclear'] = 1; return
            key = line[1][1]; T = dict(st.og.get(key.o, ())).get('of')
            if T.__class__ is not Ptr or dict(st.og.get(T.o, ())).get('k') != 'T': return self.bad(E, st, 'record', 'what is saved as the name of a table is not')
            self.name(E, st, T.o, self.tf, line[1], 'table')
            if self.flag(st, T.o, 'deleted') == 1 or cur(self.get(E, st, T.o, self.tf, 'deleted')) != Z: self.bad(E, st, 'removed', 'a removed table is saved')
            st.g['table'] = T; ogset(st, T.o, saved=1)
        elif k in ('b:', 'e:'):
            f = [q for q in line if q[0] != 'lit']; sep = [q[1] for q in line if q[0] == 'lit']
            if [q[0] for q in f] == ['num'] * 4: st.g['unclear'] = 1; return
            if [q[0] for q in f] != ['num'] * 4 + ['mem'] or sep != [k, ':', ':', ':', ':']: return self.bad(E, st, 'record', 'an entry is saved in another form than KIND:BLOCK:SIZE:EXPIRES:FILE:KEY')
            e = dict(st.og.get(f[4][1].o, ())).get('of')
            if e.__class__ is not Ptr or dict(st.og.get(e.o, ())).get('k') != 'E': return self.bad(E, st, 'record', 'what is saved as the key of an entry is not')
            e = e.o; self.name(E, st, e, self.ef, f[4], 'entry')
            for q, n in zip(f, ('block', 'data_length', 'expires', 'it')):
                v = cur(self.get(E, st, e, self.ef, n)); w = cur(q[2])
                if w.__class__ is not Lin or not self.eqp(st, v, w): self.bad(E, st, 'field', 'something else than its %s is saved in the place of the %s of an entry' % (n, n)); continue
                lo, hi = st.bounds(v); c = q[1]; big = c[0] in 'ljz'; L, H = ((-(1 << 63), (1 << 63) - 1) if big else (-(1 << 31), (1 << 31) - 1)) if c[-1] in 'di' else (0, (1 << 64) - 1 if big else (1 << 32) - 1)
                if c[-1] not in 'diu' or c[:1] == 'h' and n != 'it': self.bad(E, st, 'field', 'the %s of an entry is not saved as a decimal number' % n)
                elif lo < L or hi > H: self.bad(E, st, 'field', 'the %s of an entry is saved by a conversion (%%%s) that can not hold every value' % (n, c))
            b = cur(self.get(E, st, e, self.ef, 'block'))
            if k == 'b:' and not st.prove(b.mul(-1)) or k == 'e:' and not st.prove(b.plus(1)): self.bad(E, st, 'field', 'an entry is saved under the letter of the other place to store a value')
            for n, m in (('writing', 'that is still being uploaded'), ('deleted', 'that was removed')):
                if cur(self.get(E, st, e, self.ef, n)) != Z: self.bad(E, st, 'removed', 'an entry %s is saved' % m)
            t = self.get(E, st, e, self.ef, 'table'); t = self.pobj(st, t); T = st.g.get('table')
            if T is None or t != T.o: self.bad(E, st, 'table', 'an entry is saved under another table than its own')
            ogset(st, e, saved=1)
        else: self.bad(E, st, 'record', 'a record is saved that the start does not know')
    def name(self, E, st, o, d, q, what):
        p = self.get(E, st, o, d, 'key'); n = st.current(self.get(E, st, o, d, 'key_length'))
        if p != q[1] or not self.eqp(st, n, q[2]): self.bad(E, st, 'name', 'only a part of the name of %s is saved' % ('an entry' if what == 'entry' else 'a table'))
        g = dict(st.og.get(q[1].o, ()))
        if not g.get('nonl') and not g.get('looked'): self.bad(E, st, 'line-break', 'a name that contains a line break may be saved as two records')
    def x_memchr(self, E, st, a, I):
        r = libc.m_memchr(E, st, a, I)
        if a[0].__class__ is Ptr and a[1] == K(10) and dict(st.og.get(a[0].o, ())).get('k') == 'key':
            for s, v in r: ogset(s, a[0].o, **({'nonl': 1} if v == Z else {'nl': 1}))
        return r
    def load(self, E, st, o, off, w, t):
        if w == 8 and dict(st.og.get(o, ())).get('k') == 'key': ogset(st, o, looked=1)
        return super().load(E, st, o, off, w, t)
    def forget(self, E, st, o):
        d = dict(st.og.get(o, ())); role = self.role(st)
        if self.mode == 'flush' and d.get('k') in ('E', 'T') and not d.get('saved') and not st.g.get('fail') and not st.g.get('unclear') and role != 'parent' and not st.g.get('line') and 'chunk' not in st.g and self.writing(st):
            f = self.ef if d['k'] == 'E' else self.tf; k = self.peek(st, o, f, 'key'); g = dict(st.og.get(k.o, ())) if k.__class__ is Ptr else {}
            if not (g.get('nl') or g.get('looked') or d['k'] == 'E' and (d.get('mode') != 'complete')): self.bad(E, st, 'skipped', '%s is met but not saved' % ('a complete entry' if d['k'] == 'E' else 'a table'))
        super().forget(E, st, o)
    def writing(self, st): return any(p not in self.saved and (self.fs(st, p) or ('',))[0] == 'fresh' for f, p in st.g.get('fds', ()))
    def x_write(self, E, st, a, I):
        fd, p, n = a; path = self.fdpath(st, fd)
        if path is None: return [(st, fresh(-1, (1 << 31) - 1, 'write'))]
        if self.mode == 'start':
            if path in self.saved: self.R(E, st, 'saved-written', 'the saved file %s is written to at the start' % path)
            return [(st, fresh(-1, (1 << 31) - 1, 'write'))]
        self.touches(E, st, path); self.ob('writes to a new snapshot'); E.h.access(E, st, p, n, 'read')
        if path in self.saved: self.R(E, st, 'saved-written', 'the saved file %s is written to' % path)
        pe = self.pending(E, st); v = self.fs(st, path)
        if pe is not None:
            if pe[0] != p or not self.eqp(st, pe[1], n): self.setfs(st, path, ('bad', self.role(st), 'something is written although what was to be written before is not')); pe = None; st.cells(PEND).pop(PP, 0); st.cells(PEND).pop(PN, 0); st.g.pop('chunk', 0); st.g.pop('line', 0)
        if (self.fs(st, path) or ('',))[0] == 'bad':                # nothing that is written now makes it whole again
            c = st.cells(PEND); c.pop(PP, 0); c.pop(PN, 0); st.g.pop('chunk', 0); st.g.pop('line', 0); s2 = self.failed(st)
            k = fresh(0, (1 << 31) - 1, 'written')
            return ([(st, st.current(k))] if n.__class__ is Lin and st.add_le(k.sub(n)) else []) + [(s2, MONE)]
        if pe is None and not st.g.get('unclear'): st.g['chunk'] = (path, p, n, libc.contents(E, st, p) if p.__class__ is Ptr else None, dict(st.og.get(p.o, ())).get(('len', p.f)) if p.__class__ is Ptr else None)
        st.info.setdefault(PEND, Info('global', 'i64', K(16)))
        out = []; s2 = self.failed(st)
        s2.cells(PEND)[PP] = p; s2.cells(PEND)[PN] = n; s2.g['unclear'] = 1; s2.g.pop('chunk', 0); s2.g.pop('line', 0)     # what is written after a failure is no longer read
        k = fresh(0, (1 << 31) - 1, 'written')
        if n.__class__ is Lin and st.add_le(k.sub(n)):
            k = st.current(k); c = st.cells(PEND); c[PP] = Ptr(p.o, st.current(p.f).add(k)) if p.__class__ is Ptr else st.current(p).add(k); c[PN] = st.current(n).sub(k); out.append((st, k))
        return out + [(s2, MONE)]
    def eqp(self, st, a, b):
        a, b = st.current(a), st.current(b); d = a.sub(b)
        return d == Z or st.prove(d) and st.prove(d.mul(-1))
    def complete(self, E, st, p):
        """None when all that was to be written to p was, else what is wrong"""
        if self.pending(E, st) is not None and st.g.get('chunk', (0,))[0] == p: return 'not all of it was written'
        v = self.fs(st, p)
        if v is None or v[0] == 'stale': return 'it may be left over from an earlier snapshot'
        if v[0] == 'none': return 'it was removed'
        if v[0] == 'bad': return v[2]
        return None
    def x_rename(self, E, st, a, I):
        p, q = self.path(E, st, a[0]), self.path(E, st, a[1])
        if self.mode == 'start':
            if p in self.saved or q in self.saved: self.R(E, st, 'saved-removed', 'a saved file is renamed or replaced at the start')
            return [(st, Z), (self.failed(st), MONE)]
        self.touches(E, st, q)
        if p in self.saved: self.R(E, st, 'saved-removed', 'the saved file %s is renamed' % p)
        s2 = self.failed(st); s2.g['ren!'] = 1
        if q in self.saved:
            self.ob('replacements of a saved file'); e = self.complete(E, st, p); v = self.fs(st, p) or ('stale',)
            if e: self.R(E, st, 'incomplete', 'the saved file %s is replaced by one that may be incomplete: %s' % (q, e))
            elif q == self.blocksave:
                if v[0] == 'alias': self.R(E, st, 'alias', 'what is saved as the block file is the block file itself, which goes on changing')
                elif v[0] != 'copy' or v[2] != self.block: self.R(E, st, 'not-copy', 'what is saved as the block file is not a copy of the block file')
                elif v[1] == 'child': self.R(E, st, 'copied-late', 'the block file is copied while requests go on being served, later than the state that is saved')
            elif v[0] == 'copy': self.R(E, st, 'not-index', 'what is saved as the index is a copy of %s' % v[2])
            elif st.g.get('fds') and any(x == p for _, x in st.g['fds']): pass
            x = st.mem.get(PEND, {}).get(PF)
            if q != self.blocksave and x is not None and not st.g.get('unclear') and (st.current(x) if x.__class__ is Lin else x) != Z: self.R(E, st, 'free-missing', 'the index is saved without all free blocks', ('C12',))
            if not self.whole(E, st): self.R(E, st, 'records', 'the saved index is replaced by one that ends within a record', ('C12', 'C13'))
            st.g['done'] = tuple(sorted(set(st.g.get('done', ())) | {q}))
        self.setfs(st, q, self.fs(st, p) or ('stale',)); self.setfs(st, p, ('none',))
        return [(st, Z), (s2, MONE)]
    def copied(self, E, st, a, b, kind='copy'):
        if self.mode == 'start':
            if b in self.saved: self.R(E, st, 'saved-written', 'the saved file %s is overwritten at the start' % b)
            st.g['restored'] = tuple(sorted(set(st.g.get('restored', ())) | {(a, b, kind)})); self.seen.setdefault('copies', set()).add((a, b)); return
        self.touches(E, st, b); self.ob('copies of the block file')
        if a == self.block and not st.g.get('synced'): self.R(E, st, 'unsynced', 'the block file is copied for a snapshot before its data is written to the disk')
        if b in self.saved: self.R(E, st, 'saved-written', 'the saved file %s is overwritten in place' % b)
        self.setfs(st, b, (kind, self.role(st), a))
    def x_system(self, E, st, a, I):
        w = textof(E, st, a[0]).split()
        if not w or w[0] not in ('cp', '/bin/cp', '/usr/bin/cp', 'ln', '/bin/ln', 'mv'): raise Budget('a command that is not understood')
        x = [norm(v) for v in w[1:] if not v.startswith('-')]
        if len(x) != 2: raise Budget('a command that is not understood')
        r = fresh(-1, 255 << 8, 'system'); s2 = self.failed(st); s2.add_ne(r)
        if w[0] == 'mv': return self.x_rename(E, st, [Ptr(('str', x[0])), Ptr(('str', x[1]))], I)
        ln = w[0].endswith('ln') and not any(v.startswith('-') and 's' in v for v in w[1:]) or any(v in ('-l', '--link') for v in w)
        self.copied(E, st, x[0], x[1], 'alias' if ln else 'copy')
        if self.mode == 'flush': self.setfs(s2, x[1], ('bad', self.role(s2), 'it was not copied completely'))
        return [(st, Z), (s2, s2.current(r))]
    def x_link(self, E, st, a, I):
        s2 = self.failed(st); self.copied(E, st, self.path(E, st, a[0]), self.path(E, st, a[1]), 'alias'); return [(st, Z), (s2, MONE)]
    def x_symlink(self, E, st, a, I): return self.x_link(E, st, a, I)
    def x_sendfile(self, E, st, a, I): raise Budget('sendfile is used to copy the block file, which is not modelled')
    x_sendfile64 = x_copy_file_range = x_splice = x_sendfile
    def x_fdatasync(self, E, st, a, I):
        s2 = self.failed(st)
        if self.mode == 'flush' and self.eqp(st, a[0], self.D(E, st, 'fd_blockfile')): st.g['synced'] = 1
        return [(st, Z), (s2, MONE)]
    def x_sync(self, E, st, a, I): st.g['synced'] = 1; return [(st, None)]
    x_fsync = x_fdatasync
    # ---- the process that writes it
    def x_fork(self, E, st, a, I):
        self.ob('processes started')
        if st.g.get('kid') is not None: self.R(E, st, 'overlap', 'a second process is started to write a snapshot while one may still run')
        s2, s3 = st.copy(), self.failed(st); pid = fresh(1, 1 << 22, 'pid')
        st.g['role'] = 'parent'; st.g['kid'] = (pid, 'run'); s2.g['role'] = 'child'; s3.g['fork!'] = 1
        return [(st, pid), (s2, Z), (s3, MONE)]
    def x_waitpid(self, E, st, a, I):
        if a[1].__class__ is Ptr: E.havoc(st, a[1].o)
        kid = st.g.get('kid'); out = []; nh = a[2].__class__ is Lin and a[2].const and a[2].c & WNOHANG; self.ob('waits for a snapshot')
        if not (a[2].__class__ is Lin and a[2].const):
            for v in (Z, ONE):
                s = st.copy()
                if s.add_eq(s.current(a[2]).sub(v)): out += self.x_waitpid(E, s, [s.current(x) if x.__class__ is Lin else x for x in a[:2]] + [v], I)
            return out
        mine = kid is not None and (a[0] == MONE or self.eqp(st, a[0], kid[0]))
        if mine:
            s = st.copy(); s.g.pop('kid'); s.g['ended'] = 1; out.append((s, s.current(kid[0])))
            if nh: s = st.copy(); s.g['kid'] = (kid[0], 'run'); out.append((s, Z))
            else: s = st.copy(); self.set_errno(s, EINTR); out.append((s, MONE))
            if kid[1] != 'run' or True: s = st.copy(); s.g.pop('kid'); s.g['ended'] = 1; self.set_errno(s, ECHILD); out.append((s, MONE))
            return out
        s = st.copy(); self.set_errno(s, ECHILD); return [(s, MONE)]
    x_wait4 = x_waitpid
    def x_exit(self, E, st, a, I):
        if self.role(st) == 'child': self.ended(E, st, 'the process that writes the snapshot')
        return []
    x__exit = x__Exit = x_exit
    def x_abort(self, E, st, a, I): return []
    x___assert_fail = x_abort
    def x_signal_handler_remove(self, E, st, a, I): return [(st, None)]
    def ended(self, E, st, who, must=True):
        """the end of writing a snapshot"""
        done = set(st.g.get('done', ())); self.ob('ends of snapshots')
        if done and done != self.saved and not st.g.get('ren!'): self.R(E, st, 'half', 'only %s is replaced, %s is left as it was' % (' and '.join(sorted(done)), ' and '.join(sorted(self.saved - done))), ('C13', 'C12'))
        if must and not st.g.get('fail') and done != self.saved: self.R(E, st, 'never', 'nothing fails, but no new snapshot is saved by %s' % who)

class SnapSuite(Suite):
    WORLD = Snap
    def __init__(self, P, budget=200):
        self.P = P; self.W = self.WORLD(P); self.E = Engine(P, self.W, budget); self.E.models = dict(libc.MODELS); self.W.suite = self; self.stats = []; self.txt = None
        self.W.gc_root = True; self.W.softcells = ((self.W.G, self.W.df['table_gc']['o']),); self.W.reader = 'off'
    def key(self, name, n=None):
        ks = [k for k in self.P.functions if k.split('/')[0] == name]
        if len(ks) != 1: raise AnalysisBroken('anchor function %s not found' % name)
        return ks[0]
    def begin(self):
        """which files does the start read, and under which names?"""
        W, E = self.W, self.E; W.mode = 'start'; E.models['getline'] = self.noline
        st = State(); st.frames = []
        ends = []
        def after(s, v, where): ends.append((s, v, where))
        mh = E.maxhead; E.maxhead = 4 * mh; self.stubs_start(); W.put(st, W.G, W.df, 'free_blocks', Z); W.put(st, W.G, W.df, 'blocks_free', Z)
        self.call('db_open', st, [Ptr(('str', DIR))], 'start', after)
        E.maxhead = 4000
        if not ends: raise Budget('the start is not understood')
        self.txt = {}
        for s, v, _ in ends:
            for o, g in s.og.items():
                if o[0] == 'G': self.txt.setdefault(o, {}).update({k: x for k, x in g if k.__class__ is tuple and k[0] in ('txt', 'len')})
        self.txt = {o: tuple(g.items()) for o, g in self.txt.items()}
        cre = W.seen.get('created', set()); self.ends = ends
        W.block = next((b for a, b in sorted(W.seen.get('copies', ())) if b in cre and a in W.saved), None)
        W.blocksave = next((a for a, b in sorted(W.seen.get('copies', ())) if b == W.block and a in W.saved), None)
        if len(W.saved) < 2 or W.block is None: raise Budget('the files a start reads are not understood: %s' % sorted(W.saved))
        for s, v, where in ends:
            op = set(s.g.get('opened', ())); W.ob('starts')
            if s.g.get('read'):
                r = s.g.get('restored', ())
                if (W.blocksave, W.block, 'copy') not in r: W.report(E, s, 'restore', ('C12', 'C13'), 'a start that reads the saved index does not restore the saved block file (%s)' % ', '.join('%s to %s: %s' % x for x in r), where)
        W.mode = 'flush'
    def noline(self, E, st, a, I): st.g['read'] = 1; return [(st, MONE)]
    def stubs_start(self):
        F = flow.Flow(self.P); keep = {'open', 'open64', 'fopen', 'system', 'rename', 'link', 'unlink', 'write', 'ftruncate', 'ftruncate64', 'snprintf', 'sprintf', 'strcpy', 'lseek', 'lseek64', 'fdopen', 'fclose', 'close', 'access', 'kh_init_table'}; self.W.stubs = set()
        for k in F.closure([self.key('db_open')]):
            names = self.names(F, k)
            if not names & keep or 'mkdir' in names and not names & {'open', 'open64'}: self.W.stubs.add(k)
    def names(self, F, k):
        c = F.closure([k]); return {x.split('/')[0] for x in set(c) | {I[2] for _, _, _, I in F.externs(c)}}
    def mutators(self, root):
        """functions the root calls that only remove entries"""
        F = flow.Flow(self.P); keep = {'fork', 'waitpid', 'wait4', 'rename', 'system', 'write', 'link', 'vfork'}; out = set()
        for k in F.closure([root]):
            if k == root: continue
            names = self.names(F, k)
            if not names & keep and names & {'kh_del_entry', 'kh_del_table', 'free'} and k.split('/')[0] != 'kh_del_entry': out.add(k)
        return out
    def pre(self, kid):
        W, E = self.W, self.E; st = State(); st.frames = []
        for o, g in self.txt.items(): st.og[o] = g
        W.D(E, st, 'blocks_exist'); W.tables(E, st); W.set_free(E, st, 1); E.load(st, (W.nowo, Z) + W.nowk, 'i64')
        for n in ('db_size_bytes', 'table_gc', 'fd_blockfile'): W.get(E, st, W.G, W.df, n)
        if kid is not None:
            p = fresh(1, 1 << 22, 'snapshot process') if kid else Z
            for o, k in W.pidcells: st.cells(o)[k] = p
            if kid: st.g['kid'] = (p, 'maybe')
            return st, p
        return st, None
    def pidcell(self):
        """where is the process remembered that writes a snapshot?"""
        W, E = self.W, self.E
        st, _ = self.pre(None); found = []; forks = []
        def after(s, v, where):
            if W.role(s) == 'parent':
                forks.append(where); pid = s.current(s.g['kid'][0])
                c = {(o, k) for o in s.mem if o[0] == 'G' and o != W.G for k, x in s.mem[o].items() if x.__class__ is Lin and s.current(x) == pid}
                found.append(c)
        saved = dict(W.findings); self.call('db_lru_gc', st, [], 'clean-up', after); W.findings = saved
        if not forks: return False
        common = set.intersection(*found) if found else set()
        if not common:
            W.entry = 'db_lru_gc'; W.R(E, st, 'pid-lost', 'the process that writes the snapshot is not remembered', where=forks[0]); return None
        W.pidcells = common; return True
    def cells(self, s): return [s.current(s.mem.get(o, {}).get(k, Z)) for o, k in self.W.pidcells]
    def gc(self):
        W, E = self.W, self.E
        for kid in (0, 1):
            st, p = self.pre(kid)
            def after(s, v, where):
                R = lambda rule, msg: W.report(E, s, rule, ('C13',), msg, where); role = W.role(s); c = self.cells(s); W.ob('clean-ups')
                if role == 'child': R('child-returns', 'the process that writes the snapshot goes on as a second server'); return
                k = s.g.get('kid')
                if k is not None:
                    if any(x != s.current(k[0]) for x in c): R('pid-lost', 'the process that writes the snapshot is not remembered')
                elif any(not (x.const and x.c == 0) and (p is None or x != s.current(p)) for x in c): R('pid-wrong', 'a process that does not exist is remembered as the one that writes the snapshot')
                if role == 'self' and k is None: W.ended(E, s, 'a clean-up', must=True)
            self.call('db_lru_gc', st, [], ('a snapshot may be being written' if kid else 'no snapshot is being written'), after)
    def close(self):
        W, E = self.W, self.E
        for kid in (0, 1) if W.pidcells else (0,):
            st, p = self.pre(kid)
            def after(s, v, where):
                R = lambda rule, msg: W.report(E, s, rule, ('C13',), msg, where); W.ob('shutdowns')
                if W.role(s) == 'child': R('child-returns', 'the process that writes the snapshot goes on as a second server'); return
                if s.g.get('kid') is not None and W.role(s) == 'self': R('left-running', 'the server ends although the process that writes a snapshot may still run')
                if W.role(s) == 'self': W.ended(E, s, 'a shutdown')
            self.call('db_close', st, [], ('a snapshot may be being written' if kid else 'no snapshot is being written'), after)
    def sigchld(self):
        W, E = self.W, self.E
        if not W.pidcells: return
        for kid in (0, 1):
            for same in (0, 1) if kid else (0,):
                st, p = self.pre(kid); q = fresh(1, 1 << 22, 'pid')
                if same: q = p
                elif kid: st.add_ne(q.sub(p))
                def after(s, v, where):
                    c = self.cells(s); W.ob('ends of processes')
                    if kid and not same and any(x != s.current(p) for x in c): W.report(E, s, 'pid-lost', ('C13',), 'the process that writes the snapshot is forgotten when another one ends', where)
                    if not kid and any(x != Z for x in c): W.report(E, s, 'pid-wrong', ('C13',), 'a process that ended is remembered as the one that writes the snapshot', where)
                self.call('db_handle_sigchld', st, [q], 'a process ended', after)
import absint
def run(P, parts=('gc', 'close', 'sigchld')):
    absint.COARSE = True; S = SnapSuite(P); S.begin()
    S.W.stubs = S.mutators(S.key('db_lru_gc'))
    S.cut = None
    try: S.pidcell()
    except absint.Budget as e:
        if parts != ('close',): raise
    try:
        for p in parts: getattr(S, p)()
    except absint.Budget as e:
        if not S.W.findings: raise
        S.cut = str(e)
    S.W.findings = {k: f for k, f in S.W.findings.items() if set(f.props) & {'C12', 'C13'}}
    return S
if __name__ == '__main__':
    import prog
    P = prog.Program('release'); t = time.time()
    S = run(P, sys.argv[1:] or ('gc', 'close', 'sigchld')); print(S.stats, S.W.obl, 'saved', S.W.saved, S.W.block, S.W.blocksave, S.W.stubs, S.W.pidcells, '%.1f' % (time.time() - t), getattr(S.E, 'unknown', {}))
    for f in S.W.findings.values(): print(f.props, f.text()[:700])
