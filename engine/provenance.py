"""Where the bytes of strings come from: an inclusion-based points-to analysis (flow-insensitive, fields by
record and name) with a set of labels for the contents of every object."""
import re
from flow import *

COPY = {'memcpy': (0, 1), 'memmove': (0, 1), 'mempcpy': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1), 'stpcpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1), 'strlcpy': (0, 1), 'bcopy': (1, 0)}
FMT = {'sprintf': 1, 'snprintf': 2, 'vsprintf': 1, 'vsnprintf': 2}
PRINT = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'syslog': 1, 'sprintf': 1, 'snprintf': 2, 'asprintf': 1, 'vprintf': 0, 'vfprintf': 1, 'err': 1, 'warn': 0}
FILL = {'read': 1, 'recv': 1, 'recvfrom': 1, 'pread': 1, 'pread64': 1, 'fread': 0, 'fgets': 0, 'gets': 0}
SAME = {'strchr': 0, 'strrchr': 0, 'memchr': 0, 'strstr': 0, 'strtok': 0, 'strtok_r': 0, 'index': 0, 'rawmemchr': 0, 'basename': 0, 'strpbrk': 0}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'alloca', 'reallocarray', '__builtin_alloca'}
PATHS = {'open': (0,), 'open64': (0,), 'openat': (1,), 'creat': (0,), 'fopen': (0,), 'fopen64': (0,), 'unlink': (0,), 'unlinkat': (1,), 'remove': (0,), 'rename': (0, 1), 'mkdir': (0,), 'rmdir': (0,), 'link': (0, 1), 'symlink': (0, 1),
         'truncate': (0,), 'chmod': (0,), 'chown': (0,), 'opendir': (0,), 'access': (0,), 'stat': (0,), 'system': (0,), 'popen': (0,), 'execl': (0, 1, 2, 3), 'execlp': (0, 1, 2, 3), 'execv': (0,), 'execvp': (0,), 'mkstemp': (0,), 'chdir': (0,), 'dlopen': (0,), 'mknod': (0,), 'mkfifo': (0,), 'readlink': (0,), 'realpath': (0,)}

class Prov:
    def __init__(self, fl):
        self.fl = fl; self.P = fl.P; self.pts = {}; self.lab = {}; self.edges = set(); self.cons = []
        self.collect(); self.solve()
    # ---- places
    def field(self, lv):
        return ('F', lv[5].split('.')[0] if len(lv) > 5 else '?', lv[6] if len(lv) > 6 else lv[2])
    def node(self, k, lv):
        """the variable a place is"""
        if lv[0] == '.': return self.field(lv)
        if lv[0] == 'v': return ('g', lv[1]) if lv[1][:2] == 'g:' else ('v', k, lv[1])
        return None
    def src(self, k, e):
        """[('obj', o) | ('node', n) | ('load', [sources])] a pointer expression can point to"""
        t = e[0]
        if t == 'str': return [('obj', ('S', e[1]))]
        if t == '&':
            lv = e[1]
            if lv[0] == '*': return self.src(k, lv[1])
            n = self.node(k, lv)
            return [('obj', n)] if n else []
        if t == 'padd': return self.src(k, e[1])
        if t == 'c': return self.src(k, e[2])
        if t == 'L':
            lv = e[1]
            if lv[0] == '*': return [('load', self.src(k, lv[1]))]
            n = self.node(k, lv)
            return [('node', n)] if n else []
        if t == 'struct': return []
        return []
    def strs(self, k, e):
        """constant texts an argument can be"""
        return [x[1] for x in self.points(self.src(k, e)) if x[0] == 'S']
    # ---- constraints
    def collect(self):
        fl = self.fl; self.c = []     # ('ptr', node, srcs) ('store', srcs dest, srcs) ('byte', dest srcs, srcs) ('label', srcs, label)
        for k, F in fl.F.items():
            for ins, t in F.blocks:
                for I in ins:
                    if I[0] == 'S':
                        ty = I[3]; s = self.src(k, I[2])
                        if ty and ty[0] == 'p' or ty in ('R',):
                            n = self.node(k, I[1])
                            if n: self.c.append(('ptr', n, s))
                            elif I[1][0] == '*': self.c.append(('store', self.src(k, I[1][1]), s))
                        elif ty in ('i8', 'u8'):
                            v = I[2]
                            while v[0] == 'c': v = v[2]
                            if v[0] == 'L':
                                s = self.src(k, v[1][1]) if v[1][0] == '*' else [('obj', self.node(k, v[1]))] if self.node(k, v[1]) else []
                                d = self.src(k, I[1][1]) if I[1][0] == '*' else [('obj', self.node(k, I[1]))] if self.node(k, I[1]) else []
                                self.c.append(('byte', d, s))
                    elif I[0] == 'C': self.callc(k, I)
                if t[0] == 'R' and t[1] is not None: self.c.append(('ptr', ('ret', k), self.src(k, t[1])))
        for g, d in self.P.globals.items():
            def init(o, n):
                if o.__class__ is dict:
                    if o.get('k') == 'str': self.c.append(('ptr', n, [('obj', ('S', o.get('v', '')))])); self.c.append(('store', [('obj', n)], [('obj', ('S', o.get('v', '')))]))
                    for x in o.values(): init(x, n)
                elif o.__class__ is list:
                    for x in o: init(x, n)
            init(d.get('init'), ('g', g))
    def callc(self, k, I):
        fl = self.fl; nm = I[2]; ts = fl.targets(I); a = I[4]; dest = ('v', k, I[1]) if I[1] else None
        S = lambda e: self.src(k, e)
        if ts is not None:
            for f in ts:
                ps = fl.F[f].params
                for i, e in enumerate(a):
                    if i < len(ps): self.c.append(('ptr', ('v', f, ps[i][0]), S(e)))
                if dest: self.c.append(('ptr', dest, [('node', ('ret', f))]))
            return
        if nm in COPY and len(a) > 1:
            self.c.append(('byte', S(a[COPY[nm][0]]), S(a[COPY[nm][1]])))
            if dest: self.c.append(('ptr', dest, S(a[0])))
        elif nm in FMT:
            j = FMT[nm]; fs = [e[1] for e in [a[j]] if e[0] == 'str']
            self.c.append(('byte', S(a[0]), S(a[j])))
            if fs:
                conv = re.findall(r'%[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|j|z|t|L)?([a-zA-Z%])', fs[0])
                conv = [x for x in conv if x != '%']
                for x, e in zip(conv, a[j + 1:]) if '*' not in fs[0] else [('s', e) for e in a[j + 1:]]:
                    if x == 's': self.c.append(('byte', S(a[0]), S(e)))
            else:
                for e in a[j + 1:]: self.c.append(('byte', S(a[0]), S(e)))
        elif nm in FILL: self.c.append(('label', S(a[FILL[nm]]), 'bytes that were received or read (%s)' % nm))
        elif nm in ('getline', 'getdelim', '__getdelim'):
            o = ('M', k, 'getline'); self.c.append(('store', S(a[0]), [('obj', o)])); self.c.append(('label', [('obj', o)], 'bytes that were read (%s)' % nm))
            for x in S(a[0]):
                if x[0] == 'obj': self.c.append(('ptr', x[1], [('obj', o)]))
        elif nm in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf', 'fscanf', 'scanf'):
            for e in a[1:]: 
                if e[0] == '&' or e[0] == 'L': self.c.append(('byte', S(e), S(a[0])))
        elif nm in ALLOC:
            o = ('M', k, I[6], I[1])
            if dest: self.c.append(('ptr', dest, [('obj', o)]))
            if nm in ('strdup', 'strndup'): self.c.append(('byte', [('obj', o)], S(a[0])))
            if nm == 'realloc': self.c.append(('byte', [('obj', o)], S(a[0])))
        elif nm in SAME and dest and a: self.c.append(('ptr', dest, S(a[SAME[nm]])))
    # ---- solution
    def points(self, srcs):
        out = set()
        for x in srcs:
            if x[0] == 'obj': out.add(x[1])
            elif x[0] == 'node':
                out |= self.pts.get(x[1], set())
                if x[1] and self.isarr(x[1]): out.add(x[1])
            elif x[0] == 'load':
                for o in self.points(x[1]): out |= self.pts.get(o, set())
        return out
    def isarr(self, n): return False
    def solve(self):
        ch = True; n = 0
        while ch and n < 200:
            ch = False; n += 1
            for c in self.c:
                if c[0] == 'ptr':
                    p = self.points(c[2]); q = self.pts.setdefault(c[1], set())
                    if not p <= q: q |= p; ch = True
                elif c[0] == 'store':
                    p = self.points(c[2])
                    for o in self.points(c[1]):
                        q = self.pts.setdefault(o, set())
                        if not p <= q: q |= p; ch = True
                elif c[0] == 'byte':
                    l = set().union(set(), *[self.lab.get(o, set()) for o in self.points(c[2])])
                    if l:
                        for o in self.points(c[1]):
                            q = self.lab.setdefault(o, set())
                            if not l <= q: q |= l; ch = True
                elif c[0] == 'label':
                    for o in self.points(c[1]):
                        q = self.lab.setdefault(o, set())
                        if c[2] not in q: q.add(c[2]); ch = True
    def labels(self, k, e):
        return set().union(set(), *[self.lab.get(o, set()) for o in self.points(self.src(k, e))])
