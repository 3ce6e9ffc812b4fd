"""The program as a whole: who calls whom, what each function touches, on which thread it can run.
Works on the lowered functions (prog.Fn), so it sees the resolved program and not its text."""
import re
import prog
from prog import Lower

def exprs(I):
    """the expressions an instruction evaluates, and the place it writes"""
    k = I[0]
    if k == 'S': return [I[2]], I[1]
    if k == 'C': return list(I[4]) + ([I[3]] if I[3] is not None else []), None
    if k == 'SS': return [I[2]], I[1]
    if k in 'ZH': return [], I[1]
    return [], None
def sub(e, f):
    """calls f on every node of an expression"""
    if e.__class__ is tuple:
        if e and e[0].__class__ is str: f(e)
        for x in e: sub(x, f)
    elif e.__class__ is list:
        for x in e: sub(x, f)
def nodes(e):
    out = []; sub(e, out.append); return out
def line(I): return {'S': 4, 'C': 6, 'SS': 4}.get(I[0]) and I[{'S': 4, 'C': 6, 'SS': 4}[I[0]]]
def root(lv):
    """(variable, path of fields) a place names directly, or None when it is reached through a pointer"""
    path = ()
    while lv.__class__ is tuple:
        if lv[0] == '.': path = (lv[6] if len(lv) > 6 else lv[1],) + path; lv = lv[1]
        elif lv[0] == 'v': return lv[1], path
        elif lv[0] == '*':
            p = lv[1]
            while p.__class__ is tuple and p[0] == 'padd': p = p[1]
            if p.__class__ is tuple and p[0] == '&': lv = p[1]; path = ('[]',) + path
            else: return None
        else: return None
    return None

class Flow:
    def __init__(self, P):
        self.P = P; self.F = {}; self.calls = {}; self.addr = {}; self.protect = set()
        for k in P.functions:
            try: F = P.fn(k)
            except prog.AnalysisBroken: continue
            self.F[k] = F; cs = []
            for b, (ins, t) in enumerate(F.blocks):
                for n, I in enumerate(ins):
                    if I[0] == 'C': cs.append((b, n, I))
                    es, d = exprs(I)
                    special = I[0] == 'C' and I[2] in ('signal', 'sigaction', 'pthread_create', 'bsd_signal', 'atexit')
                    for e in es + ([d] if d is not None else []):
                        for x in nodes(e):
                            if x[0] == 'fn': self.addr.setdefault(x[1], []).append((k, I, special))
            self.calls[k] = cs
        for g, v in P.globals.items():
            def init(o):
                if o.__class__ is dict:
                    if o.get('k') in ('fn', 'ref') and o.get('n') in P.functions: self.addr.setdefault(o['n'], []).append((g, None, False))
                    for x in o.values(): init(x)
                elif o.__class__ is list:
                    for x in o: init(x)
            init(v.get('init'))
        self.reach = {k: self.live(F) for k, F in self.F.items()}
    def live(self, F):
        seen = {0}; todo = [0]
        while todo:
            for s in Lower.succ(F.blocks[todo.pop()][1]):
                if s not in seen: seen.add(s); todo.append(s)
        return seen
    def name(self, k, n):
        if n is None: return None
        if n in self.F: return n
        return n
    def targets(self, I):
        """functions of the program that a call can reach; None for a library function"""
        n = I[2]
        if n is not None:
            if n in self.F: return [n]
            m = '%s/%d' % (n, len(I[4]))
            return [m] if m in self.F else None
        return [k for k, us in self.addr.items() if k in self.F and any(not s for _, _, s in us) and len(self.F[k].params) == len(I[4])]
    def closure(self, roots, skip=lambda k, b, n, I: False):
        """functions reachable from roots"""
        seen = {}; todo = [(r, None) for r in roots]
        while todo:
            k, via = todo.pop()
            if k in seen or k not in self.F: continue
            seen[k] = via
            for b, n, I in self.calls[k]:
                if b not in self.reach[k] or skip(k, b, n, I): continue
                for t in self.targets(I) or (): todo.append((t, (k, I)))
        return seen
    def path(self, seen, k):
        out = []
        while k is not None and len(out) < 20:
            out.append(k); v = seen.get(k); k = v[0] if v else None
        return out[::-1]
    def externs(self, fns, skip=lambda k, b, n, I: False):
        for k in fns:
            for b, n, I in self.calls[k]:
                if b in self.reach[k] and I[2] is not None and self.targets(I) is None and not skip(k, b, n, I): yield k, b, n, I
    def where(self, k, l):
        F = self.F[k]; return '%s:%s (%s)' % (F.file, l, k.split('::')[-1].split('/')[0])
    def accesses(self, k):
        """(variable, fields, 'r'/'w'/'a', line) of globals used by a function"""
        F = self.F[k]; out = []
        def reads(e, ln):
            if e.__class__ is not tuple: return
            if e[0] == '&':
                r = root(e[1])
                if r and r[0][:2] == 'g:': out.append((r[0], r[1], 'a', ln))
                else: inner(e[1], ln)
                return
            if e[0] == 'L':
                r = root(e[1])
                if r and r[0][:2] == 'g:': out.append((r[0], r[1], 'r', ln))
                inner(e[1], ln); return
            if e[0] == 'v':
                if e[1][:2] == 'g:': out.append((e[1], (), 'r', ln))
                return
            for x in e[1:]:
                if x.__class__ is tuple: reads(x, ln)
                elif x.__class__ is list:
                    for y in x: reads(y, ln)
        def inner(lv, ln):
            # places are reached through pointers that are read
            if lv.__class__ is not tuple: return
            if lv[0] == '.': inner(lv[1], ln)
            elif lv[0] == '*': reads(lv[1], ln)
            elif lv[0] != 'v': reads(lv, ln)
        for b in sorted(self.reach[k]):
            ins, t = F.blocks[b]
            for I in ins:
                es, d = exprs(I); ln = line(I) or 0
                for e in es:
                    if I[0] == 'SS':
                        r = root(e)
                        if r and r[0][:2] == 'g:': out.append((r[0], r[1], 'r', ln))
                        inner(e, ln)
                    else: reads(e, ln)
                if d is not None:
                    r = root(d)
                    if r and r[0][:2] == 'g:': out.append((r[0], r[1], 'w', ln))
                    inner(d, ln)
            if t[0] == 'B': reads(t[1][2], t[4]); reads(t[1][3], t[4])
            elif t[0] in 'WR' and t[1] is not None: reads(t[1], t[4] if t[0] == 'W' else t[2])
        return out
    def handlers(self):
        """signal -> functions installed for it (None: signal number not constant)"""
        out = {}
        for k, us in self.addr.items():
            for f, I, s in us:
                if I is None: continue
                if I[0] == 'C' and I[2] in ('signal', 'bsd_signal'):
                    n = I[4][0]; out.setdefault(n[1] if n[0] == 'i' else None, set()).add(k)
                elif I[0] == 'S' and any(x[0] == '.' and len(x) > 6 and x[6] in ('sa_handler', '__sigaction_handler', 'sa_sigaction') for x in nodes(I[1])):
                    out.setdefault(None, set()).add(k)
        return out
    def threads(self):
        return {x[1] for k in self.F for b, n, I in self.calls[k] if I[2] == 'pthread_create' and b in self.reach[k] for x in nodes(I[4][2]) if x[0] == 'fn'}
    def loops_with(self, names):
        """(function, blocks) of the loops that call one of the library functions names"""
        out = []
        for k, F in self.F.items():
            for h, body in F.loops.items():
                if any(I[2] in names for b, n, I in self.calls[k] if b in body): out.append((k, h, body))
        return out
