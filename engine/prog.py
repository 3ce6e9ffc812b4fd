"""Loads the resolved program (typed syntax trees exported from clang) and lowers every function to a
control-flow graph: three-address-like assignments, hoisted calls, two-way branches on comparisons.
Short-circuit operators, conditional expressions and comparisons used as values become control flow."""
import json, os, subprocess, hashlib, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

class AnalysisBroken(Exception):
    pass

def exporter():
    b = os.path.join(HERE, 'build', 'export')
    src = os.path.join(HERE, 'engine', 'export.cpp')
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
        tmp = b + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-std=c++17', '-fno-rtti', '-O1', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                            '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib'],
                           capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken('exporter does not build: ' + r.stderr[:500])
        os.rename(tmp, b)
    return b

CONFIGS = {
    'release': ['-DNDEBUG', '-DRELEASE'],
    'debug': ['-DDEBUG_BUILD'],
}

def sources():
    out = []
    for d in ('src/core', 'src/server'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.cpp') or f.endswith('.c') or f.endswith('.cc'): out.append(os.path.join(p, f))
    return out

class Program:
    def __init__(self, config='release'):
        self._tables = {}; self._written = None; self._ltab = {}
        files = sources()
        cmd = [exporter(), os.path.join(REPO, 'src')] + files + ['--', '-std=c++11'] + CONFIGS[config] + \
              ['-I' + os.path.join(REPO, 'src/core'), '-include', os.path.join(HERE, 'stubs/khash.h'), '-w']
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=HERE)
        if r.returncode: raise AnalysisBroken('sources do not parse: ' + r.stderr[:2000])
        d = json.loads(r.stdout)
        self.records = {}; self.functions = {}; self.globals = {}; self.protos = {}; self.enums = {}
        self.stems = {}
        for f, tu in d.items():
            if tu['errors']: raise AnalysisBroken('errors in ' + f)
            stem = os.path.basename(f).rsplit('.', 1)[0]
            fl = tu['files']
            for k, v in tu['records'].items():
                if k not in self.records or 'fields' in v: self.records[k] = v
            for k, v in tu['functions'].items():
                v['file'] = os.path.relpath(fl[v['fi']], REPO); v['files'] = fl; v['stem'] = stem
                self.functions.setdefault(k, v)
            for k, v in tu['globals'].items():
                v['stem'] = stem
                if k not in self.globals or (v.get('def') and not self.globals[k].get('def')) or ('init' in v and 'init' not in self.globals[k]): self.globals[k] = v
            self.protos.update(tu["protos"]); self.enums.update({(k if k[:5] != "enum@" else stem + k): v for k, v in tu["enums"].items()})
        self.econst = {n: v for e in self.enums.values() for n, v in e.items()}
        self._low = {}
        self.fld = {r: {f['n']: f for f in v['fields']} for r, v in self.records.items() if 'fields' in v}
        self.nfiles = len(files)

    def sizeof(self, t):
        c = t[0]
        if c in 'iuf' and t != 'fn': return int(t[1:]) // 8
        if c == 'b': return 1
        if c == 'p' or c == 'R': return 8
        if c == 'e': return int(t[1:].split(':')[0]) // 8
        if c == 'a':
            n, e = t[2:].split(':', 1); return int(n) * self.sizeof(e)
        if c == 'r': 
            r = self.records.get(t[2:]); return r.get('size', 8) if r else 8
        return 1

    # ---- constant tables
    def table(self, key):
        """cells {(bit offset, bits): constant} of a global object that never changes, or None"""
        if key not in self._tables:
            self._tables[key] = None; g = self.globals.get(key)
            if g and 'init' in g and not g.get('vol') and (g.get('const') or (g.get('static') and key not in self.written())):
                c = {}
                try: self._flat(g['t'], g['init'], 0, c)
                except (KeyError, ValueError, TypeError, IndexError): c = None
                self._tables[key] = c
        return self._tables[key]
    def _flat(self, t, e, at, c):
        if e is None: return
        if t[0] == 'a':
            n, et = t[2:].split(':', 1); n = int(n); w = self.sizeof(et) * 8
            if e['k'] == 'str':
                for i, ch in enumerate(e['s'][:n]): c[at + i * 8, 8] = ('i', (ord(ch) + 128) % 256 - 128)
            elif e['k'] == 'init':
                if n > 4096: raise ValueError
                for i, a in enumerate(e['as']): self._flat(et, a, at + i * w, c)
            elif e['k'] != 'zero': raise ValueError
        elif t[0] == 'r':
            if e['k'] == 'zero': return
            r = self.records[t[2:]]
            if e['k'] != 'init' or r.get('union'): raise ValueError
            for fd, a in zip(r['fields'], e['as']): self._flat(fd['t'], a, at + fd['o'], c)
        else:
            k = (at, self.sizeof(t) * 8)
            while e['k'] in ('cast', 'paren') or (e['k'] == 'un' and e.get('op') == '&'): e = e['e'] if 'e' in e else e['a']
            if e['k'] == 'int': c[k] = ('i', e['v'])
            elif e['k'] == 'str': c[k] = ('str', e['s'])
            elif e['k'] == 'fn': c[k] = ('fn', e['n'])
            elif e['k'] == 'zero': pass
            else: c[k] = None
    def written(self):
        """global objects that something may write to after their initialisation"""
        if self._written is None:
            w = self._written = set()
            def root(l):
                while l.__class__ is tuple and l:
                    if l[0] == 'v': return l[1]
                    if l[0] not in ('.', '*', '&', 'padd', 'c', 'L'): return None
                    l = l[2] if l[0] == 'c' else l[1]
                return None
            def refs(x):
                if x.__class__ in (tuple, list):
                    if x and x[0] == 'L': return
                    if len(x) > 1 and x[0] == '&':
                        r = root(x)
                        if r: w.add(r)
                    for y in x: refs(y)
            for k in list(self.functions):
                try: F = self.fn(k)
                except Exception: continue
                for ins, t in F.blocks:
                    for I in ins:
                        if I[0] in ('S', 'Z', 'H', 'SS'):
                            r = root(I[1])
                            if r: w.add(r)
                            if I[0] == 'S': refs(I[2])
                        else: refs(I)
        return self._written
    def loop_table(self, F, h):
        """number of rows of the constant table a loop walks, or 0"""
        k = (F.key, h)
        if k not in self._ltab:
            n = 0; seen = set()
            def refs(x):
                nonlocal n
                if x.__class__ not in (tuple, list): return
                if len(x) > 1 and x[0] == 'v' and x[1].__class__ is str and x[1] in self.globals:
                    g = self.globals[x[1]]
                    if g['t'][0] == 'a' and not g['t'].endswith(':i8') and 'init' in g and self.table(x[1]): n = max(n, int(g['t'][2:].split(':', 1)[0]))
                for y in x: refs(y)
            for b in F.loops.get(h, ()): refs(F.blocks[b])
            self._ltab[k] = n if n <= 64 else 0
        return self._ltab[k]
    def fn(self, key):
        if key not in self._low: self._low[key] = Lower(self, key).run()
        return self._low[key]

    def find(self, name):
        """function key of a function by its plain name (internal or external linkage)"""
        if name in self.functions: return name
        c = [k for k in self.functions if k.split('::')[-1].split('/')[0] == name]
        return c[0] if len(c) == 1 else None
    def findall(self, name):
        return [k for k in self.functions if k.split('::')[-1].split('/')[0] == name]
    def need(self, name):
        k = self.find(name)
        if k is None: raise AnalysisBroken('anchor function %s not found' % name)
        return k
    def field(self, rec, f):
        try: return self.fld[rec][f]
        except KeyError: raise AnalysisBroken('anchor field %s.%s not found' % (rec, f))

class Fn:
    pass

INTRANGE = {}
def trange(t):
    """value range of an integer type, or None"""
    if t in INTRANGE: return INTRANGE[t]
    r = None
    if t == 'b': r = (0, 1)
    elif t[0] in 'iu' and t[1:].isdigit():
        w = int(t[1:]); r = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == 'i' else (0, (1 << w) - 1)
    elif t[0] == 'e':
        w = int(t[1:].split(':')[0]); r = (0, (1 << w) - 1)
    elif t[0] == 'p' or t[0] == 'R': r = (0, (1 << 64) - 1)
    INTRANGE[t] = r
    return r

LV = {'var', 'mem', 'idx'}

class Lower:
    def __init__(self, prog, key):
        self.p = prog; self.key = key; self.f = prog.functions[key]
        self.blocks = []; self.nt = 0; self.cur = None
        self.labels = {}; self.brk = []; self.cont = []; self.sw = []
        self.types = {}; self.addr = set()

    def new(self):
        self.blocks.append([[], None]); return len(self.blocks) - 1
    def emit(self, i):
        if self.cur is not None: self.blocks[self.cur][0].append(i)
    def term(self, t):
        if self.cur is not None: self.blocks[self.cur][1] = t
        self.cur = None
    def go(self, b):
        if self.cur is not None: self.term(('J', b))
        self.cur = b
    def tmp(self, t):
        self.nt += 1; n = '%%%d' % self.nt; self.types[n] = t; return n

    def run(self):
        f = self.f
        for p in f['ps']: self.types[p['d']] = p['t']
        self.cur = self.new()
        self.stmt(f['b'])
        if self.cur is not None: self.term(('R', None, f['el']))
        F = Fn(); F.key = self.key; F.name = f['n']; F.file = f['file']; F.line = f['l']; F.ret = f['r']
        F.params = [(p['d'], p['t']) for p in f['ps']]
        for b in self.blocks:
            if b[1] is None: b[1] = ('X',)
        F.blocks = self.blocks; F.types = self.types
        # aggregates and address-taken variables live in memory
        F.inmem = {v for v in self.types if v in self.addr or self.types[v][0] in 'ar' or self.types[v] == '?'}
        self.clean(F)
        self.analyse(F)
        return F

    def clean(self, F):
        bl = F.blocks
        # thread empty jump blocks
        def tgt(b, seen=()):
            ins, t = bl[b]
            if not ins and t[0] == 'J' and b not in seen: return tgt(t[1], seen + (b,))
            return b
        for i, (ins, t) in enumerate(bl):
            if t[0] == 'J': bl[i][1] = ('J', tgt(t[1]))
            elif t[0] == 'B': bl[i][1] = ('B', t[1], tgt(t[2]), tgt(t[3]), t[4])
            elif t[0] == 'W': bl[i][1] = ('W', t[1], [(a, b, tgt(c)) for a, b, c in t[2]], tgt(t[3]), t[4])

    @staticmethod
    def succ(t):
        if t[0] == 'J': return [t[1]]
        if t[0] == 'B': return [t[2], t[3]]
        if t[0] == 'W': return [c for _, _, c in t[2]] + [t[3]]
        return []

    def analyse(self, F):
        # reachability, loop heads, predecessors, liveness, scopes
        n = len(F.blocks); state = [0] * n; heads = set(); order = []; preds = {i: [] for i in range(n)}
        stack = [(0, iter(self.succ(F.blocks[0][1])))]; state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                preds[s].append(b)
                if state[s] == 0:
                    state[s] = 1; stack.append((s, iter(self.succ(F.blocks[s][1])))); break
                if state[s] == 1: heads.add(s)
            else:
                state[b] = 2; order.append(b); stack.pop()
        F.heads = heads; F.preds = preds; F.rpo = {b: i for i, b in enumerate(reversed(order))}
        F.joins = {b for b in range(n) if len(preds[b]) > 1}
        # liveness of register variables
        use = {}; deff = {}
        for b in order:
            u = set(); d = set()
            ins, t = F.blocks[b]
            def rd(e):
                for v in vars_of(e):
                    if v not in d: u.add(v)
            for i in ins:
                if i[0] == 'S':
                    rd(i[2]); 
                    if i[1][0] == 'v': d.add(i[1][1])
                    else: rd(i[1])
                elif i[0] == 'C':
                    if i[3] is not None: rd(i[3])
                    for a in i[4]: rd(a)
                    if i[1]: d.add(i[1])
                elif i[0] == 'D': d.add(i[1])
                elif i[0] == 'SS': rd(i[1]); rd(i[2])
                elif i[0] == 'Z': rd(i[1])
            if t[0] == 'B': rd(t[1])
            elif t[0] == 'W': rd(t[1])
            elif t[0] == 'R' and t[1] is not None: rd(t[1])
            use[b] = u; deff[b] = d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.succ(F.blocks[b][1]): o |= live[s]
                l = use[b] | (o - deff[b])
                if l != live[b]: live[b] = l; ch = True
        F.live = live
        # natural loop bodies
        F.loops = {}
        for h in heads:
            body = {h}; st = [p for p in preds[h] if F.rpo.get(p, -1) >= F.rpo[h]]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st += preds[x]
            F.loops[h] = body

    # ---- statements
    def stmt(self, s):
        if s is None: return
        k = s['k']
        if self.cur is None and k not in ('label', 'case', 'default', 'blk', 'switch', 'while', 'do', 'for', 'if'):
            if k != 'decl': return
        getattr(self, 's_' + k)(s)
    def s_blk(self, s):
        for c in s['b']: self.stmt(c)
    def s_null(self, s): pass
    def s_expr(self, s):
        if self.cur is None: return
        self.effect(s['e'])
    def s_decl(self, s):
        for d in s['ds']:
            t = d['t']; self.types[d['d']] = t
            if self.cur is None: continue
            if t[0] == 'R':
                if 'i' in d:
                    self.emit(('S', ('v', d['d'], t), self.addr_or_val(d['i']), t, s['l']))
                continue
            if 'i' in d and d['i'] is not None:
                if t[0] in 'ar':
                    self.emit(('D', d['d'], t, s['l']))
                    self.init(('v', d['d'], t), t, d['i'], s['l'])
                elif t == '?': self.emit(('D', d['d'], t, s['l'])); self.effect(d['i'])
                else:
                    v = self.rv(d['i'])
                    self.emit(('S', ('v', d['d'], t), v, t, s['l']))
            else: self.emit(('D', d['d'], t, s['l']))
    def init(self, lv, t, e, line):
        if t[0] == 'r' or t[0] == 'a':
            if e['k'] == 'init':
                self.emit(('Z', lv, t, line))
                if t[0] == 'r':
                    r = self.p.records.get(t[2:], {})
                    fs = r.get('fields', [])
                    if r.get('union'):
                        if e['as'] and e.get('uf'):
                            fd = self.p.fld[t[2:]][e['uf']]
                            if e['as'][0]: self.init(('.', lv, fd['o'], fd['w'], fd['t'], t[2:], fd['n']), fd['t'], e['as'][0], line)
                        return
                    for fd, a in zip(fs, e['as']):
                        if a is not None and a['k'] != 'zero': self.init(('.', lv, fd['o'], fd['w'], fd['t'], t[2:], fd['n']), fd['t'], a, line)
                else:
                    n, et = t[2:].split(':', 1); sz = self.p.sizeof(et)
                    for i, a in enumerate(e['as'][:512]):
                        if a is not None and a['k'] != 'zero': self.init(('*', ('padd', ('&', lv), ('i', i, 'i64'), sz), et), et, a, line)
                return
            if e['k'] in ('zero',) or (e['k'] == 'ctor'): self.emit(('Z', lv, t, line)) ; return
            if e['k'] == 'str':
                self.emit(('C', None, '$strcpy', None, [('&', lv), ('str', e['s'])], 'v', line, {})); return
            if e['k'] == 'load':
                src = self.lv(e['e']); self.emit(('SS', lv, src, t, line)); return
            self.effect(e); self.emit(('H', lv, t, line)); return
        v = self.rv(e)
        self.emit(('S', lv, v, t, line))
    def s_if(self, s):
        if self.cur is None:
            pass
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.stmt(s['cv'])
        a = self.new(); b = self.new(); e = self.new()
        if self.cur is not None: self.cond(s['c'], a, b)
        self.cur = a if self.reach(a) else None
        self.stmt(s['a'])
        if self.cur is not None: self.term(('J', e))
        self.cur = b if self.reach(b) else None
        self.stmt(s['b'])
        if self.cur is not None: self.term(('J', e))
        self.cur = e
    def reach(self, b): return True
    def s_while(self, s):
        h = self.new(); b = self.new(); e = self.new()
        self.go(h)
        if s.get('cv'): self.stmt(s['cv'])
        self.cond(s['c'], b, e)
        self.brk.append(e); self.cont.append(h)
        self.cur = b; self.stmt(s['b'])
        if self.cur is not None: self.term(('J', h))
        self.brk.pop(); self.cont.pop(); self.cur = e
    def s_do(self, s):
        b = self.new(); c = self.new(); e = self.new()
        self.go(b)
        self.brk.append(e); self.cont.append(c)
        self.stmt(s['b'])
        self.brk.pop(); self.cont.pop()
        self.go(c)
        self.cond(s['c'], b, e)
        self.cur = e
    def s_for(self, s):
        self.stmt(s['i'])
        h = self.new(); b = self.new(); u = self.new(); e = self.new()
        self.go(h)
        if 'c' in s: self.cond(s['c'], b, e)
        else: self.term(('J', b))
        self.brk.append(e); self.cont.append(u)
        self.cur = b; self.stmt(s['b'])
        self.brk.pop(); self.cont.pop()
        self.go(u)
        if 'u' in s: self.effect(s['u'])
        self.term(('J', h)); self.cur = e
    def s_rfor(self, s):
        for x in s['pre']: self.stmt(x)
        h = self.new(); b = self.new(); u = self.new(); e = self.new()
        self.go(h); self.cond(s['c'], b, e)
        self.brk.append(e); self.cont.append(u)
        self.cur = b; self.stmt(s['v']); self.stmt(s['b'])
        self.brk.pop(); self.cont.pop()
        self.go(u); self.effect(s['u']); self.term(('J', h)); self.cur = e
    def s_switch(self, s):
        if s.get('cv'): self.stmt(s['cv'])
        v = self.rv(s['c']); t = self.tmp(s['c']['t']); self.emit(('S', ('v', t, s['c']['t']), v, s['c']['t'], s['l']))
        e = self.new(); cases = []; ctx = {'cases': cases, 'default': None}
        here = self.cur; self.cur = None
        self.sw.append(ctx); self.brk.append(e)
        self.stmt(s['b'])
        if self.cur is not None: self.term(('J', e))
        self.brk.pop(); self.sw.pop()
        self.cur = here
        self.term(('W', ('L', ('v', t, s['c']['t']), s['c']['t']), cases, ctx['default'] if ctx['default'] is not None else e, s['l']))
        self.cur = e
    def s_case(self, s):
        b = self.new(); self.go(b)
        lo = ival(s['v']); hi = ival(s['hi']) if 'hi' in s else lo
        self.sw[-1]['cases'].append((lo, hi, b)); self.stmt(s['s'])
    def s_default(self, s):
        b = self.new(); self.go(b); self.sw[-1]['default'] = b; self.stmt(s['s'])
    def s_break(self, s): self.term(('J', self.brk[-1]))
    def s_continue(self, s): self.term(('J', self.cont[-1]))
    def s_ret(self, s):
        e = s.get('e')
        if e is None: self.term(('R', None, s['l'])); return
        if self.f['r'][0] == 'R': v = self.addr_or_val(e)
        elif e['t'] == 'v': self.effect(e); self.term(('R', None, s['l'])); return
        elif self.f['r'][0] == 'r': self.effect(e); self.term(('R', None, s['l'])); return
        else: v = self.rv(e)
        self.term(('R', v, s['l']))
    def label(self, n):
        if n not in self.labels: self.labels[n] = self.new()
        return self.labels[n]
    def s_goto(self, s): self.term(('J', self.label(s['n'])))
    def s_label(self, s): self.go(self.label(s['n'])); self.stmt(s['s'])
    def s_unks(self, s): raise AnalysisBroken('unsupported statement %s in %s' % (s.get('w'), self.key))

    # ---- conditions
    def cond(self, e, bt, bf):
        if self.cur is None: return
        k = e['k']
        if k == 'int':
            self.term(('J', bt if ival(e) else bf)); return
        if k == 'bin' and e['o'] in ('&&', '||'):
            m = self.new()
            if e['o'] == '&&': self.cond(e['a'], m, bf)
            else: self.cond(e['a'], bt, m)
            self.cur = m; self.cond(e['b'], bt, bf); return
        if k == 'un' and e['o'] == '!': self.cond(e['e'], bf, bt); return
        if k == 'bin' and e['o'] == ',': self.effect(e['a']); self.cond(e['b'], bt, bf); return
        if k == 'cast' and e['c'] in ('IntegralToBoolean', 'PointerToBoolean'): self.cond(e['e'], bt, bf); return
        if k == 'cast' and e['c'] == 'IntegralCast' and e['ft'] == 'b': self.cond(e['e'], bt, bf); return
        if k == 'bin' and e['o'] in ('==', '!=', '<', '>', '<=', '>='):
            a = self.rv(e['a']); b = self.rv(e['b'])
            self.term(('B', ('cmp', e['o'], a, b), bt, bf, e['l'])); return
        v = self.rv(e)
        self.term(('B', ('cmp', '!=', v, ('i', 0, 'i32')), bt, bf, e['l']))

    # ---- expressions
    def effect(self, e):
        if self.cur is None: return
        k = e['k']
        if k == 'call': self.call(e, False); return
        if k in ('asg', 'cas'): self.assign(e); return
        if k == 'un' and e['o'] in ('++', '--'): self.incdec(e); return
        if k == 'bin' and e['o'] == ',': self.effect(e['a']); self.effect(e['b']); return
        if k == 'cond':
            a = self.new(); b = self.new(); z = self.new()
            self.cond(e['c'], a, b)
            self.cur = a; self.effect(e['a']); self.go2(z)
            self.cur = b; self.effect(e['b']); self.go2(z)
            self.cur = z; return
        if k == 'bin' and e['o'] in ('&&', '||'):
            z = self.new(); m = self.new()
            if e['o'] == '&&': self.cond(e['a'], m, z)
            else: self.cond(e['a'], z, m)
            self.cur = m; self.effect(e['b']); self.go2(z); self.cur = z; return
        if k in ('cast', 'load') and e['t'] in ('v',): self.effect(e['e']); return
        if k == 'cast': self.effect(e['e']); return
        if k in ('int', 'str', 'flt', 'fn', 'zero', 'unk', 'var', 'memfn', 'ctor'): return
        if k == 'stexpr': self.stmt(e['s']); return
        if k == 'delete': self.emit(('C', None, 'free', None, [self.rv(e['e'])], 'v', e['l'], e)); return
        if k == 'load' and e['t'][0] in 'r?': self.lv_effect(e['e']); return
        self.rv(e)
    def lv_effect(self, e):
        if e['k'] in ('var',): return
        self.effect(e) if e['k'] == 'call' else None
    def go2(self, b):
        if self.cur is not None: self.term(('J', b))
    def asval(self, v, t):
        n = self.tmp(t); self.emit(('S', ('v', n, t), v, t, 0)); return ('L', ('v', n, t), t)
    def boolval(self, e):
        a = self.new(); b = self.new(); z = self.new(); n = self.tmp('b')
        self.cond(e, a, b)
        self.cur = a; self.emit(('S', ('v', n, 'b'), ('i', 1, 'b'), 'b', e['l'])); self.go2(z)
        self.cur = b; self.emit(('S', ('v', n, 'b'), ('i', 0, 'b'), 'b', e['l'])); self.go2(z)
        self.cur = z
        return ('L', ('v', n, 'b'), 'b')
    def is_lv(self, e):
        return e['k'] in LV or (e['k'] == 'un' and e['o'] == '*') or e['k'] in ('asg', 'cas') or (e['k'] == 'un' and e['o'] in ('++', '--') and not e['post'])
    def addr_or_val(self, e):
        if self.is_lv(e):
            return self.addr_of(self.lv(e))
        if e['k'] == 'call' and e['t'][0] == 'R': return self.rv(e)
        if e['k'] == 'load' and e['t'][0] == 'r': return self.addr_of(self.lv(e['e']))
        if e['t'][0] in 'r?': self.effect(e); return ('unk', e['t'])
        # temporary bound to a reference
        v = self.rv(e); n = self.tmp(e['t']); self.addr.add(n); self.types[n] = e['t']
        self.emit(('D', n, e['t'], e['l'])); self.emit(('S', ('v', n, e['t']), v, e['t'], e['l']))
        return ('&', ('v', n, e['t']))
    def addr_of(self, lv):
        self.mark(lv); 
        if lv[0] == '*': return lv[1]
        return ('&', lv)
    def mark(self, lv):
        while lv[0] == '.': lv = lv[1]
        if lv[0] == 'v' and lv[1][0] in 'l%': self.addr.add(lv[1])
    def lv(self, e):
        k = e['k']
        if k == 'var':
            t = e['t']
            if t[0] == 'R': return ('*', ('L', ('v', e['d'], t), t), t[2:])
            self.types.setdefault(e['d'], t) if e['d'][0] != 'g' else None
            return ('v', e['d'], t)
        if k == 'mem':
            fd = self.p.field(e['r'], e['f'])
            if e['a']: base = ('*', self.rv(e['b']), 'r:' + e['r'])
            elif self.is_lv(e['b']): base = self.lv(e['b'])
            else:
                b = e['b']
                if b['k'] == 'load': base = self.lv(b['e'])
                elif b['k'] == 'call' and b['t'][0] == 'R': base = ('*', self.rv(b), 'r:' + e['r'])
                else: self.effect(b); base = ('*', ('unk', 'p'), 'r:' + e['r'])
            return ('.', base, fd['o'], fd['w'], fd['t'], e['r'], e['f'])
        if k == 'idx':
            t = e['t']
            b = self.rv(e['b']); i = self.rv(e['i'])
            if e['b'].get('t', 'p:')[0] not in 'pa' : b, i = i, b
            return ('*', ('padd', b, i, self.p.sizeof(t)), t)
        if k == 'un' and e['o'] == '*':
            return ('*', self.rv(e['e']), e['t'])
        if k in ('asg', 'cas'): return self.assign(e)
        if k == 'un' and e['o'] in ('++', '--'): return self.incdec(e, want='lv')
        if k == 'call':
            v = self.rv(e); return ('*', v, e['t'][2:] if e['t'][0] == 'R' else e['t'])
        if k == 'cast': return self.lv(e['e'])
        if k == 'cond':
            t = e['t']; n = self.tmp('p:' + t); a = self.new(); b = self.new(); z = self.new()
            self.cond(e['c'], a, b)
            self.cur = a; self.emit(('S', ('v', n, 'p:' + t), self.addr_of(self.lv(e['a'])), 'p:' + t, e['l'])); self.go2(z)
            self.cur = b; self.emit(('S', ('v', n, 'p:' + t), self.addr_of(self.lv(e['b'])), 'p:' + t, e['l'])); self.go2(z)
            self.cur = z; return ('*', ('L', ('v', n, 'p:' + t), 'p:' + t), t)
        if k == 'load': return self.lv(e['e'])
        if k == 'str': return ('*', ('str', e['s']), e['t'])
        if k in ('init', 'ctor', 'zero', 'unk'):
            n = self.tmp(e['t']); self.addr.add(n); self.emit(('D', n, e['t'], e['l'])); self.init(('v', n, e['t']), e['t'], e, e['l'])
            return ('v', n, e['t'])
        raise AnalysisBroken('unsupported lvalue %s in %s:%d' % (k, self.key, e['l']))
    def assign(self, e):
        t = e['t']; 
        if e['k'] == 'asg':
            if t[0] in 'r?':
                b = e['b']
                if b['k'] == 'load': src = self.lv(b['e']); dst = self.lv(e['a']); self.emit(('SS', dst, src, t, e['l'])); return dst
                if b['k'] in ('init', 'zero', 'ctor'): dst = self.lv(e['a']); self.init(dst, t, b, e['l']); return dst
                self.effect(b); dst = self.lv(e['a']); self.emit(('H', dst, t, e['l'])); return dst
            v = self.rv(e['b'])
            if self.impure(e['a']): v = self.asval(v, t)
            dst = self.lv(e['a'])
            self.emit(('S', dst, v, t, e['l'])); return dst
        v = self.rv(e['b'])
        dst = self.lv(e['a'])
        old = ('L', dst, t)
        if t[0] == 'p':
            sz = self.p.sizeof(t[2:]); idx = v if e['o'] == '+' else ('u', '-', v, 'i64')
            nv = ('padd', old, idx, sz)
        else:
            lt = e.get('lt', t); ct = e.get('ct', t)
            o = ('c', 'IntegralCast', old, lt, t) if lt != t else old
            if lt[0] == 'f' or t[0] == 'f': nv = ('unk', t)
            else:
                nv = ('b', e['o'], o, v, ct)
                if ct != t: nv = ('c', 'IntegralCast', nv, t, ct)
        self.emit(('S', dst, nv, t, e['l'])); return dst
    def impure(self, e):
        k = e['k']
        if k in ('call', 'asg', 'cas', 'cond', 'stexpr'): return True
        if k == 'un' and e['o'] in ('++', '--'): return True
        return any(self.impure(e[x]) for x in ('a', 'b', 'e', 'i') if isinstance(e.get(x), dict))
    def incdec(self, e, want='val'):
        t = e['t']; dst = self.lv(e['e'])
        old = ('L', dst, t)
        keep = None
        if e['post'] and want == 'val':
            keep = self.tmp(t); self.emit(('S', ('v', keep, t), old, t, e['l']))
            old = ('L', ('v', keep, t), t)
        d = 1 if e['o'] == '++' else -1
        if t[0] == 'p': nv = ('padd', old, ('i', d, 'i64'), self.p.sizeof(t[2:]))
        else:
            nv = ('b', '+', old, ('i', d, t), t) if trange(t) and trange(t)[1] >= 2**31 - 1 else ('c', 'IntegralCast', ('b', '+', ('c', 'IntegralCast', old, 'i32', t), ('i', d, 'i32'), 'i32'), t, 'i32')
        self.emit(('S', dst, nv, t, e['l']))
        if want == 'lv': return dst
        return ('L', ('v', keep, t), t) if keep else ('L', dst, t)
    def rv(self, e):
        k = e['k']
        if self.cur is None: return ('unk', e.get('t', 'i32'))
        if k == 'int': return ('i', ival(e), e['t'])
        if k == 'str': return ('str', e['s'])
        if k == 'flt': return ('unk', e['t'])
        if k == 'fn': return ('fn', e['n'])
        if k == 'load':
            lv = self.lv(e['e']); return ('L', lv, e['t'])
        if k == 'cast':
            c = e['c']
            if c == 'ArrayToPointerDecay':
                x = e['e']
                if x['k'] == 'str': return ('str', x['s'])
                lv = self.lv(x); return self.addr_of(lv)
            if c in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.rv(e['e'])
            if c == 'NullToPointer': return ('i', 0, 'p:v')
            if c in ('IntegralToBoolean', 'PointerToBoolean'): return self.boolval(e['e'])
            if c == 'ToVoid': self.effect(e['e']); return ('i', 0, 'i32')
            if c == 'LValueBitCast':
                lv = self.lv(e['e']); return self.addr_of(lv)
            if self.is_lv(e['e']) and c in ('BitCast', 'NoOp'): return ('L', self.lv(e['e']), e['t'])
            v = self.rv(e['e'])
            if c in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'FloatingToBoolean'): return ('uf', c, v, e['t'])
            if c in ('BitCast', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'AtomicToNonAtomic', 'NonAtomicToAtomic'): return v
            return ('c', c, v, e['t'], e['ft'])
        if k == 'bin':
            o = e['o']
            if o in ('&&', '||', '==', '!=', '<', '>', '<=', '>='): return self.boolval(e)
            if o == ',': self.effect(e['a']); return self.rv(e['b'])
            ta = e['a'].get('t', ''); tb = e['b'].get('t', '')
            a = self.rv(e['a'])
            if self.impure(e['b']): a = self.asval(a, ta)
            b = self.rv(e['b'])
            if e['t'][0] == 'p':
                if ta[0] == 'p': return ('padd', a, b if o == '+' else ('u', '-', b, 'i64'), self.p.sizeof(ta[2:]))
                return ('padd', b, a, self.p.sizeof(tb[2:]))
            if ta[:1] == 'p' and tb[:1] == 'p' and o == '-': return ('pdiff', a, b, self.p.sizeof(ta[2:]))
            if e['t'][0] == 'f': return ('uf2', o, a, b, e['t'])
            return ('b', o, a, b, e['t'])
        if k == 'un':
            o = e['o']
            if o == '!': return self.boolval(e)
            if o == '&':
                x = e['e']
                if x['k'] == 'fn': return ('fn', x['n'])
                lv = self.lv(x); return self.addr_of(lv)
            if o in ('++', '--'): return self.incdec(e)
            if o == '*': return ('L', ('*', self.rv(e['e']), e['t']), e['t'])
            v = self.rv(e['e'])
            if e['t'][0] == 'f': return ('unk', e['t'])
            if o == '+': return v
            return ('u', o, v, e['t'])
        if k in ('asg', 'cas'):
            dst = self.assign(e); return ('L', dst, e['t'])
        if k == 'cond':
            t = e['t']
            if t == 'v': self.effect(e); return ('i', 0, 'i32')
            n = self.tmp(t); a = self.new(); b = self.new(); z = self.new()
            self.cond(e['c'], a, b)
            self.cur = a; v = self.rv(e['a']); self.emit(('S', ('v', n, t), v, t, e['l'])); self.go2(z)
            self.cur = b; v = self.rv(e['b']); self.emit(('S', ('v', n, t), v, t, e['l'])); self.go2(z)
            self.cur = z
            return ('L', ('v', n, t), t)
        if k == 'call': return self.call(e, True)
        if k == 'stexpr':
            ss = e['s']['b']
            for x in ss[:-1]: self.stmt(x)
            if ss and ss[-1]['k'] == 'expr': return self.rv(ss[-1]['e'])
            if ss: self.stmt(ss[-1])
            return ('i', 0, 'i32')
        if k in ('zero',): return ('i', 0, e['t'])
        if k == 'var' or k == 'mem' or k == 'idx':
            lv = self.lv(e)
            t = lv[-1] if lv[0] != '.' else lv[4]
            return ('L', lv, t)
        if k == 'memfn': return ('unk', 'fn')
        if k == 'unk': return ('unk', e.get('t', 'i32'))
        if k in ('ctor', 'init') and e['t'][0] not in 'ra':
            if e['as']: return self.rv(e['as'][0])
            return ('i', 0, e['t'])
        if k == 'new': 
            n = self.tmp(e['t']); self.emit(('C', n, 'malloc', None, [('i', self.p.sizeof(e['at']), 'u64')], e['t'], e['l'], e)); return ('L', ('v', n, e['t']), e['t'])
        if k in ('ctor', 'init'): return ('unk', e['t'])
        raise AnalysisBroken('unsupported expression %s in %s:%d' % (k, self.key, e['l']))
    def call(self, e, want):
        n = e.get('n'); fe = None
        if n is None: fe = self.rv(e['f'])
        args = []
        for i, a in enumerate(e['as']):
            rest_impure = any(self.impure(x) for x in e['as'][i + 1:])
            if e.get('m') and i == 0:
                if a.get('t', '')[:1] == 'p': v = self.rv(a)
                else: v = self.addr_or_val(a)
            elif self.is_lv(a): v = self.addr_or_val(a)
            elif a.get('t', '')[:1] in ('r', '?'):
                if a['k'] == 'load': v = ('struct', self.lv(a['e']), a['t'])
                else: self.effect(a); v = ('unk', a['t'])
            else: v = self.rv(a)
            if rest_impure and v[0] not in ('i', 'str', 'fn', 'struct'): v = self.asval(v, a.get('t', 'i32'))
            args.append(v)
        t = e['t']; dest = None
        if want and t != 'v': dest = self.tmp(t)
        self.emit(('C', dest, n, fe, args, t, e['l'], e))
        if e.get('nr'): self.term(('X',))
        return ('L', ('v', dest, t), t) if dest else ('i', 0, 'i32')

def ival(e):
    v = e['v']
    return int(v) if not isinstance(v, float) else int(v)

def vars_of(e):
    if not isinstance(e, tuple): return
    if e[0] == 'v':
        if e[1][0] in 'l%': yield e[1]
        return
    if e[0] in ('i', 'str', 'fn'): return
    for x in e[1:]:
        if isinstance(x, tuple): yield from vars_of(x)

def walk(o, f):
    """calls f on every syntax node below o"""
    if isinstance(o, dict):
        if 'k' in o: f(o)
        for v in o.values():
            if isinstance(v, (dict, list)): walk(v, f)
    elif isinstance(o, list):
        for v in o: walk(v, f)
