"""Rules about the program as a whole: threads, signal handlers, what may block, where names come from."""
import re
import jobs, prog
from jobs import job, Result
from flow import *

def flow(P):
    if not hasattr(P, '_flow'): P._flow = Flow(P)
    return P._flow

class Rep:
    def __init__(self, fl, entry): self.fl = fl; self.f = {}; self.obl = {}; self.fns = set(); self.entry = entry; self.samples = []
    def ob(self, what, n=1): self.obl[what] = self.obl.get(what, 0) + n
    def at(self, rule, props, k, l, msg, path=()):
        w = self.fl.where(k, l) if k else ''
        self.f.setdefault((rule, w, msg), dict(rule=rule, props=sorted(props), where=w, function=k or '', msg=msg, entry=self.entry, trace=['called by way of ' + ' > '.join(path)] if path else []))
    def result(self): return Result(findings=list(self.f.values()), obl=self.obl, fns=sorted(self.fns), paths=0, samples=self.samples)

def const(e):
    while e[0] == 'c': e = e[2]
    return e[1] if e[0] == 'i' else None
def leafvar(e):
    """the variable an expression is a plain copy of"""
    while e[0] in 'c' and len(e) > 2: e = e[2]
    return e[1][1] if e[0] == 'L' and e[1][0] == 'v' else None
def deadend(F):
    """blocks from which the program can only end"""
    ok = set()
    ch = True
    bad = set()
    for b in range(len(F.blocks)):
        if F.blocks[b][1][0] == 'R': ok.add(b)
    while ch:
        ch = False
        for b in range(len(F.blocks)):
            if b not in ok and any(s in ok for s in Lower.succ(F.blocks[b][1])): ok.add(b); ch = True
    for h, body in F.loops.items(): ok |= set(body)
    while True:
        n = len(ok)
        for b in range(len(F.blocks)):
            if b not in ok and any(s in ok for s in Lower.succ(F.blocks[b][1])): ok.add(b)
        if len(ok) == n: break
    return {b for b in range(len(F.blocks)) if b not in ok}
def failed_call_blocks(fl, k):
    """blocks that only end the program after a library call failed"""
    F = fl.F[k]; d = deadend(F); res = {I[1] for b, n, I in fl.calls[k] if I[1] and fl.targets(I) is None}
    for _ in range(3):
        for ins, t in F.blocks:
            for I in ins:
                if I[0] == 'S' and I[1][0] == 'v' and I[2][0] == 'L' and I[2][1][0] == 'v' and I[2][1][1] in res: res.add(I[1][1])
    good = set()
    for b, (ins, t) in enumerate(F.blocks):
        if t[0] == 'B' and b not in d and any(x[0] == 'L' and x[1][0] == 'v' and x[1][1] in res for x in nodes(t[1])):
            good |= {s for s in Lower.succ(t) if s in d}
    ch = True
    while ch:
        ch = False
        for b in list(good):
            for s in Lower.succ(F.blocks[b][1]):
                if s in d and s not in good: good.add(s); ch = True
    return good

# ---------------------------------------------------------------- C20
SAFE = set('''_exit _Exit abort accept access alarm chdir chmod clock_gettime close connect dup dup2 execve fchmod fcntl fdatasync fork fstat fsync ftruncate getpid getppid kill link
listen lseek lseek64 mkdir open pause pipe poll raise read recv recvfrom rename rmdir select send sendto setsockopt shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember signal sigpending
sigprocmask sigsuspend sleep socket stat symlink time umask uname unlink wait waitpid write memcpy memmove memset memcmp strlen strnlen strcpy strcat strncpy strchr strcmp strncmp __errno_location gettimeofday
sem_post eventfd_write pthread_kill pthread_self pthread_sigmask timer_settime'''.split())
def c20(P):
    fl = flow(P); R = Rep(fl, 'signal handlers'); hs = fl.handlers(); roots = set().union(*hs.values()) if hs else set()
    if not roots: raise prog.AnalysisBroken('no signal handler found')
    loops = fl.loops_with({'epoll_wait', 'epoll_pwait', 'poll', 'ppoll', 'select'})
    evfn = {k for k, h, b in loops}
    ev = fl.closure(evfn | {k for k in fl.addr if any(not s for _, _, s in fl.addr[k])})
    written = {}
    for k in ev:
        for g, p, m, l in fl.accesses(k):
            if m in 'wa': written.setdefault(g, []).append((k, l))
    for h in sorted(roots):
        c = fl.closure([h]); R.fns |= set(c); R.ob('signal handlers')
        for k in c:
            F = fl.F[k]; skip = failed_call_blocks(fl, k); path = fl.path(c, k)
            for b, n, I in fl.calls[k]:
                if b not in fl.reach[k] or b in skip: continue
                if I[2] is None and not fl.targets(I): R.at('handler-call', ['C20'], k, I[6], 'a signal handler calls through a pointer', path); continue
                if fl.targets(I) is None:
                    R.ob('library calls of signal handlers')
                    if I[2] not in SAFE: R.at('handler-call', ['C20'], k, I[6], 'a signal handler calls %s, which is not safe at any instant' % I[2], path)
            for g, p, m, l in fl.accesses(k):
                d = P.globals.get(g)
                if d is None or d['const'] or g in ('g:stderr', 'g:stdout', 'g:stdin'): continue
                R.ob('shared variables of signal handlers')
                t = d['t']; scalar = t in ('b',) or re.fullmatch('[iu](8|16|32|64)', t)
                if d.get('vol'):
                    if not scalar and t != 'r:timeval' and t != 'r:timespec': R.at('handler-state', ['C20'], k, l, 'a signal handler uses %s, which can not be read or changed in one step' % g[2:], path)
                    continue
                if m == 'w' or (m == 'a'): R.at('handler-state', ['C20'], k, l, 'a signal handler changes %s, which is not volatile' % g[2:], path)
                elif g in written: R.at('handler-state', ['C20'], k, l, 'a signal handler uses %s, which the event loop changes' % g[2:], path)
            errs = {I[1] for b, n, I in fl.calls[k] if I[2] == '__errno_location'}
            par = {x[0] for x in F.params}
            for b in fl.reach[k]:
                if b in skip: continue
                ins, t = F.blocks[b]
                for I in ins:
                    es, d = exprs(I)
                    for x in [x for e in es + ([d] if d else []) for x in nodes(e)]:
                        if x[0] != '*': continue
                        p = x[1]
                        while p[0] in ('padd', 'c'): p = p[1] if p[0] == 'padd' else p[2]
                        if p[0] == '&': continue
                        if p[0] == 'L' and p[1][0] == 'v' and (p[1][1] in errs or p[1][1] in par): continue
                        if p[0] == 'L' and p[1][0] == 'v' and p[1][1][0] in 'l%' : continue      # what it points to was reached another way
                        R.at('handler-pointer', ['C20'], k, line(I) or 0, 'a signal handler follows a pointer that it finds in shared data', path)
    # what a signal asks for
    def installed(s):
        r = set()
        for k in fl.F:
            for b, n, I in fl.calls[k]:
                if b not in fl.reach[k] or I[2] not in ('signal', 'bsd_signal', 'sigaction') or const(I[4][0]) != s: continue
                if I[2] == 'sigaction': r |= {x for x in sigaction_of(fl, k, I)}
                elif I[4][1][0] == 'fn': r.add(I[4][1][1])
        return r
    body = {}
    for s, what in ((2, 'SIGINT'), (15, 'SIGTERM')):
        hh = installed(s); R.ob('requests made by signals')
        if not hh: R.at('shutdown', ['C20'], None, 0, '%s has no handler: the server is killed without saving anything' % what); continue
        for h in hh:
            flags = {g for k in fl.closure([h]) for g, p, m, l in fl.accesses(k) if m == 'w' and P.globals.get(g, {}).get('vol')}
            for k, hd, bl in loops:
                reads = {g for g, m in body_reads(fl, k, bl)}
                if not (flags & reads): R.at('shutdown', ['C20'], k, line_of(fl, k, hd), 'the loop does not end when %s was received' % what)
    hh = installed(10); R.ob('requests made by signals')
    if not hh: R.at('clean-up', ['C20'], None, 0, 'SIGUSR1 has no handler: the server is killed when a clean-up is asked for')
    for h in hh:
        flags = {g for k in fl.closure([h]) for g, p, m, l in fl.accesses(k) if m == 'w' and P.globals.get(g, {}).get('vol')}
        used = {g for k in ev for g, p, m, l in fl.accesses(k) if m in 'r'}
        cleared = {g for k in ev for g, p, m, l in fl.accesses(k) if m in 'w'}
        if not (flags & used): R.at('clean-up', ['C20'], h, fl.F[h].line if hasattr(fl.F[h], 'line') else 0, 'the clean-up that was asked for is not carried out by the event loop')
        elif not (flags & used & cleared): R.at('clean-up', ['C20'], h, 0, 'a clean-up that was asked for once is carried out again and again')
    R.samples = ['%s: %s' % (k, sorted(v)) for k, v in hs.items()]
    return R.result()
def sigaction_of(fl, k, I):
    """handlers stored in the structure given to a sigaction call"""
    a = I[4][1]; out = set()
    if a[0] == 'i': return out
    for b, (ins, t) in enumerate(fl.F[k].blocks):
        for S in ins:
            if S[0] != 'S' or not any(x[0] == '.' and len(x) > 6 and x[6] in ('sa_handler', '__sigaction_handler', 'sa_sigaction') for x in nodes(S[1])): continue
            base = S[1]
            while base[0] == '.': base = base[1]
            if base[0] == '*' and same_place(base[1], a) or base[0] == 'v' and a == ('&', base):
                out |= {x[1] for x in nodes(S[2]) if x[0] == 'fn'}
    return out
def same_place(p, q):
    def norm(x):
        if x[0] == 'padd' and const(x[2]) is not None:
            b, o = norm(x[1]); return b, o + const(x[2]) * x[3]
        if x[0] == '&' and x[1][0] == '*': return norm(x[1][1])
        return x, 0
    return norm(p) == norm(q)
def line_of(fl, k, b):
    ins, t = fl.F[k].blocks[b]
    for I in ins:
        if line(I): return line(I)
    return t[4] if t[0] in 'BW' else fl.P.functions[k].get('l', 0)
def body_reads(fl, k, blocks):
    out = set(); F = fl.F[k]
    sub_ = fl.closure({t for b, n, I in fl.calls[k] if b in blocks for t in fl.targets(I) or () if I[2] is not None})
    for c in sub_:
        for g, p, m, l in fl.accesses(c): 
            if m == 'r': out.add((g, m))
    full = fl.reach[k]; fl.reach[k] = set(blocks)
    try:
        for g, p, m, l in fl.accesses(k):
            if m == 'r': out.add((g, m))
    finally: fl.reach[k] = full
    return out
job('flow.signals', c20, ('C20',), 60, 1)

# ---------------------------------------------------------------- C21
SLEEPS = set('''sleep usleep nanosleep clock_nanosleep select pselect poll ppoll pause sigsuspend sigwait sigwaitinfo wait wait3 wait4 waitid pthread_join pthread_cond_wait pthread_cond_timedwait sem_wait sem_timedwait
pthread_barrier_wait connect getaddrinfo gethostbyname lockf accept flock epoll_wait epoll_pwait sync syncfs getchar scanf'''.split())
RUNS = {'system', 'popen', 'execl', 'execlp', 'execv', 'execvp', 'execve', 'posix_spawn', 'vfork'}
WNOHANG = 1; O_NONBLOCK = 0o4000; SOCK_NONBLOCK = 0o4000; CLOEXEC = 0o2000000; MSG_DONTWAIT = 0x40
def eventloop(fl):
    """functions with a loop that waits for events, on the thread that serves connections"""
    th = fl.closure(fl.threads())
    return [(k, h, b) for k, h, b in fl.loops_with({'epoll_wait', 'epoll_pwait'}) if k not in th]
def snapshot_writers(fl):
    """functions that end up renaming a file: the snapshot is put in place there"""
    out = set()
    for k in fl.F:
        if any(I[2] == 'rename' for kk, b, n, I in fl.externs(fl.closure([k]))): out.add(k)
    return out
def c21(P):
    fl = flow(P); R = Rep(fl, 'everything that runs between two waits of the event loop'); loops = eventloop(fl)
    if not loops: raise prog.AnalysisBroken('no event loop found')
    outer = {}
    for k, h, b in loops: outer.setdefault(k, set()).update(b)
    snap = snapshot_writers(fl)
    for k, body in outer.items():
        roots = {t for b, n, I in fl.calls[k] if b in body for t in fl.targets(I) or ()}
        roots |= {f for f in fl.addr if f in fl.F and any(not s for _, _, s in fl.addr[f])}
        c = fl.closure(roots); R.fns |= set(c) | {k}
        sites = list(fl.externs(c)) + [(k, b, n, I) for b, n, I in fl.calls[k] if b in body and I[2] is not None and fl.targets(I) is None and I[2] not in ('epoll_wait', 'epoll_pwait')]
        for kk, b, n, I in sites:
            R.ob('library calls while serving'); nm = I[2]; path = [k] + fl.path(c, kk)
            if nm in RUNS:
                if not any(x in snap for x in path) or nm == 'vfork': R.at('runs-program', ['C21'], kk, I[6], 'a program is run while serving requests', path)
                elif not any(x in snap for x in (kk,)) and not all(s in snap for s in callers_in(fl, c, kk, k)): R.at('runs-program', ['C21'], kk, I[6], 'a program is run while serving requests, not only for a snapshot', path)
            elif nm == 'waitpid':
                if not nohang(fl, kk, I[4][2], c, body, k): R.at('waits', ['C21'], kk, I[6], 'the event loop waits for a process to end', path)
            elif nm == 'flock':
                f = const(I[4][1])
                if f is None or not f & 4: R.at('waits', ['C21'], kk, I[6], 'the event loop waits for a file lock', path)
            elif nm in ('poll', 'ppoll') and len(I[4]) > 2 and const(I[4][2]) == 0: pass
            elif nm in ('fcntl', 'fcntl64') and len(I[4]) > 1 and const(I[4][1]) in (7, 38): R.at('waits', ['C21'], kk, I[6], 'the event loop waits for a file lock', path)
            elif nm in ('fcntl', 'fcntl64') and len(I[4]) > 2 and const(I[4][1]) == 4 and const(I[4][2]) is not None and not const(I[4][2]) & O_NONBLOCK: R.at('blocking-socket', ['C21'], kk, I[6], 'a descriptor is made blocking while serving requests', path)
            elif nm in SLEEPS: R.at('waits', ['C21'], kk, I[6], 'the event loop calls %s, which can wait' % nm, path)
    # sockets
    for kk, b, n, I in fl.externs(fl.F):
        if I[2] == 'accept4':
            R.ob('sockets'); f = const(I[4][3])
            if f is not None and not f & SOCK_NONBLOCK and not made(fl, kk, I, 4, O_NONBLOCK): R.at('blocking-socket', ['C21'], kk, I[6], 'an accepted socket is not made non-blocking')
            if f is not None and not f & CLOEXEC and not made(fl, kk, I, 2, 1): R.at('inherited', ['C16'], kk, I[6], 'an accepted socket is inherited by programs the server runs')
        elif I[2] == 'accept':
            R.ob('sockets')
            if not made(fl, kk, I, 4, O_NONBLOCK): R.at('blocking-socket', ['C21'], kk, I[6], 'an accepted socket is not made non-blocking')
            if not made(fl, kk, I, 2, 1): R.at('inherited', ['C16'], kk, I[6], 'an accepted socket is inherited by programs the server runs')
        elif I[2] == 'socket':
            R.ob('sockets'); f = const(I[4][1])
            if f is not None and not f & CLOEXEC and not made(fl, kk, I, 2, 1): R.at('inherited', ['C16'], kk, I[6], 'a socket is inherited by programs the server runs')
        elif I[2] in ('epoll_create1', 'eventfd', 'timerfd_create', 'signalfd', 'pipe2'):
            R.ob('descriptors of the event loop'); f = const(I[4][-1])
            if f is not None and not f & CLOEXEC and not made(fl, kk, I, 2, 1): R.at('inherited', ['C16'], kk, I[6], 'a descriptor of the event loop is inherited by programs the server runs')
            if I[2] == 'eventfd' and f is not None and not f & O_NONBLOCK and not made(fl, kk, I, 4, O_NONBLOCK): R.at('blocking-socket', ['C21'], kk, I[6], 'the event loop can block on reading an event counter')
        elif I[2] in ('epoll_create', 'pipe'):
            R.ob('descriptors of the event loop')
            if I[2] == 'epoll_create' and not made(fl, kk, I, 2, 1): R.at('inherited', ['C16'], kk, I[6], 'a descriptor of the event loop is inherited by programs the server runs')
    # a client that goes away must not end the process
    R.ob('write to a closed socket')
    ok = False
    for kk, b, n, I in fl.externs(fl.F):
        if I[2] in ('signal', 'sigaction') and const(I[4][0]) == 13: ok = True
    sends = [I for kk, b, n, I in fl.externs(fl.F) if I[2] in ('send', 'sendmsg')]
    if not ok and not (sends and not [1 for kk, b, n, I in fl.externs(fl.F) if I[2] == 'write']): R.at('sigpipe', ['C22', 'C21'], None, 0, 'writing to a connection that the client closed ends the server (SIGPIPE is not ignored)')
    return R.result()
def callers_in(fl, c, k, top):
    """the functions through which k is reached directly (one level), within the closure c"""
    out = {x for x in c for b, n, I in fl.calls[x] if b in fl.reach[x] and k in (fl.targets(I) or ())}
    return out or {top}
def values(fl, k, e, c, seen=()):
    """constant values an argument can have, following parameters to their call sites; None if unknown"""
    v = const(e)
    if v is not None: return {v}
    n = leafvar(e)
    if n is None or (k, n) in seen: return None
    F = fl.F[k]; out = set(); defs = 0
    for ins, t in F.blocks:
        for I in ins:
            if I[0] == 'S' and I[1] == ('v', n) + I[1][2:] and I[1][0] == 'v':
                r = values(fl, k, I[2], c, seen + ((k, n),)); defs += 1
                if r is None: return None
                out |= r
            elif I[0] == 'C' and I[1] == n: return None
    for i, p in enumerate(F.params):
        if p[0] != n: continue
        for kk in (c or fl.F):
            if kk not in fl.F: continue
            for b, m, I in fl.calls[kk]:
                if b in fl.reach[kk] and k in (fl.targets(I) or ()) and i < len(I[4]):
                    r = values(fl, kk, I[4][i], c, seen + ((k, n),))
                    if r is None: return None
                    out |= r
        return out
    return out if defs else None
def nohang(fl, k, e, c, body, top):
    r = values(fl, k, e, set(c) | {top})
    return r is None or all(v & WNOHANG for v in r)
def made(fl, k, I, cmd, bit):
    """is the descriptor a call returns passed to fcntl(fd, cmd, ..bit..) in the same function (or a helper)?"""
    F = fl.F[k]; al = {I[1]}
    for _ in range(3):
        for ins, t in F.blocks:
            for S in ins:
                if S[0] == 'S' and S[1][0] == 'v' and S[2][0] in 'Lc' and leafvar(S[2]) in al: al.add(S[1][1])
    for b, n, C in fl.calls[k]:
        if not any(leafvar(a) in al for a in C[4]): continue
        if C[2] in ('fcntl', 'fcntl64') and leafvar(C[4][0]) in al and const(C[4][1]) == cmd:
            v = const(C[4][2]) if len(C[4]) > 2 else 0
            if v is None or v & bit: return True
        for t in fl.targets(C) or ():
            for i, a in enumerate(C[4]):
                if leafvar(a) in al and i < len(fl.F[t].params):
                    p = fl.F[t].params[i][0]
                    for b2, n2, D in fl.calls[t]:
                        if D[2] in ('fcntl', 'fcntl64') and leafvar(D[4][0]) == p and const(D[4][1]) == cmd and (const(D[4][2]) is None or const(D[4][2]) & bit): return True
    return False
job('flow.blocking', c21, ('C16', 'C21', 'C22'), 60, 1)

# ---------------------------------------------------------------- C19
WAITING = SLEEPS | RUNS | set('''read write recv recvfrom recvmsg send sendto sendmsg accept4 fork open open64 creat unlink rename ftruncate ftruncate64 fsync fdatasync sendfile sendfile64 waitpid usleep printf fprintf puts perror fflush
pthread_create lseek lseek64 pread pwrite mkdir opendir fopen getline fgets'''.split())
def c19(P):
    fl = flow(P); R = Rep(fl, 'the accepting threads and the event loop'); th = fl.threads()
    if not th: raise prog.AnalysisBroken('no thread is started')
    acc = {}; NOTH = {}
    def lockname(e):
        for x in nodes(e):
            if x[0] == 'v': return x[1]
        return '?'
    class Tab:
        def __init__(self, who): self.who = who; self.memo = {}; self.busy = set()
        def run(self, k, s0, path):
            key = (k, s0)
            if key in self.memo: return self.memo[key]
            if key in self.busy or len(path) > 40: return set()
            self.busy.add(key); F = fl.F[k]; R.fns.add(k)
            st = {0: {s0}}; todo = [0]; exits = set(); al = self.globals_of(k)
            while todo:
                b = todo.pop(); cur = set(st[b]); ins, t = F.blocks[b]
                for n, I in enumerate(ins):
                    for g, p, m, l in al.get((b, n), ()):
                        for s in cur: acc.setdefault(g, {}).setdefault((self.who, s, m), (k, l, path))
                    if I[0] == 'C': cur = self.call(k, I, cur, path)
                for g, p, m, l in al.get((b, 'T'), ()):
                    for s in cur: acc.setdefault(g, {}).setdefault((self.who, s, m), (k, l, path))
                if t[0] == 'R': exits |= cur
                for x in Lower.succ(t):
                    if not cur <= st.get(x, set()): st.setdefault(x, set()).update(cur); todo.append(x)
            self.busy.discard(key); self.memo[key] = exits
            return exits
        def globals_of(self, k):
            d = fl.__dict__.setdefault('_acc', {})
            if k in d: return d[k]
            F = fl.F[k]; out = {}; full = fl.reach[k]; blocks = F.blocks
            for b in full:
                ins, t = blocks[b]
                for n, I in enumerate(ins):
                    F.blocks = {b: ([I], ('X',))}; fl.reach[k] = {b}
                    a = fl.accesses(k)
                    if a: out[(b, n)] = a
                F.blocks = {b: ([], t)}; fl.reach[k] = {b}
                a = fl.accesses(k)
                if a: out[(b, 'T')] = a
            F.blocks = blocks; fl.reach[k] = full; d[k] = out
            return out
        def call(self, k, I, cur, path):
            nm = I[2]; out = set(); p2 = path + (k,)
            if nm == 'pthread_create': return {(min(t + 1, 3), h) for t, h in cur}
            if nm == 'pthread_join': return {(max(t - 1, 0), h) for t, h in cur} if self.who == 'loop' else cur
            if nm in ('pthread_mutex_lock', 'pthread_spin_lock'):
                L = lockname(I[4][0]); R.ob('locks taken')
                for t, h in cur:
                    if L in h: R.at('lock-twice', ['C19'], k, I[6], 'a lock that is held is taken again', p2)
                    out.add((t, h | {L}))
                return out
            if nm in ('pthread_mutex_unlock', 'pthread_spin_unlock'):
                L = lockname(I[4][0])
                for t, h in cur:
                    if L not in h: R.at('unlock', ['C19'], k, I[6], 'a lock that is not held is released', p2)
                    out.add((t, h - {L}))
                return out
            ts = fl.targets(I)
            if ts is None:
                if nm in WAITING:
                    for t, h in cur:
                        if h: R.at('lock-wait', ['C19'], k, I[6], 'a thread calls %s while it holds a lock' % nm, p2)
                return cur
            if nm is None and not ts: return cur
            if nm is None: out |= cur        # an admissible handler may leave things as they are
            for f in ts:
                for s in cur: out |= self.run(f, s, p2) if fl.F[f] else {s}
            return out
    sys_ = []
    for f in sorted(th):
        ex = Tab('accept').run(f, (1, frozenset()), ())
        for t, h in ex:
            if h: R.at('lock-kept', ['C19'], f, 0, 'a thread ends while it holds a lock')
    ex = Tab('loop').run('main', (0, frozenset()), ())
    for t, h in ex:
        if h: R.at('lock-kept', ['C19'], 'main', 0, 'the server ends while a lock is held')
    for g, a in sorted(acc.items()):
        d = P.globals.get(g)
        if d is None or d['const'] or d['t'] in ('r:pthread_mutex_t', 'r:pthread_spinlock_t') or g in ('g:stderr', 'g:stdout', 'g:stdin'): continue
        scalar = d['t'] == 'b' or re.fullmatch('[iu](8|16|32|64)', d['t'])
        live = {x: w for x, w in a.items() if x[1][0] > 0}
        who = {x[0] for x in live}
        R.ob('global variables looked at')
        if 'accept' not in who: continue
        if d.get('vol') and scalar: continue
        if not any(x[2] in 'wa' for x in live): continue
        twice = True      # there is more than one accepting thread, so its own writes are shared as well
        locks = None
        for x in live: locks = x[1][1] if locks is None else locks & x[1][1]
        R.ob('variables shared between threads')
        if not locks:
            for x, (k, l, path) in sorted(live.items(), key=str):
                if not x[1][1]: R.at('unlocked', ['C19'], k, l, '%s is used by several threads, here without holding its lock' % g[2:], path)
            if all(x[1][1] for x in live): R.at('unlocked', ['C19'], None, 0, '%s is used by several threads, under different locks' % g[2:])
    R.samples = ['shared under a lock: ' + g[2:] for g, a in acc.items() if any(x[0] == 'accept' and x[1][1] for x in a)]
    return R.result()
job('flow.threads', c19, ('C19',), 120, 2)

# ---------------------------------------------------------------- C25
CHECKED = set('''read write open open64 lseek lseek64 sendfile sendfile64 fork bind listen accept accept4 socket epoll_create1 epoll_create epoll_wait eventfd pread pwrite pread64 pwrite64 rename fdatasync system flock waitpid fopen
mkstemp pipe pipe2 dup2 pthread_create recv send'''.split())
def c25(P):
    fl = flow(P); R = Rep(fl, 'every call of a function that can fail'); hs = fl.handlers(); hc = fl.closure(set().union(*hs.values()) if hs else set())
    for k, b, n, I in fl.externs(fl.F):
        if I[2] not in CHECKED: continue
        R.fns.add(k); R.ob('calls that can fail'); F = fl.F[k]
        if k in hc and I[2] == 'write': continue
        if I[2] in ('write', 'read') and const(I[4][2]) is not None and const(I[4][2]) <= 8: continue      # an event counter, or a farewell
        if I[2] in ('lseek', 'lseek64') and I[1] is None and const(I[4][1]) == 0: continue                  # back to the start; every transfer seeks itself
        if I[2] == 'eventfd' or I[2] in ('epoll_create1', 'epoll_create') : continue                       # using -1 fails at once, at start-up
        if b in deadend(F): continue
        if I[1] is None: R.at('unchecked', ['C25'], k, I[6], 'the result of %s is not looked at' % I[2]); continue
        if not tested(fl, k, I[1]): R.at('unchecked', ['C25'], k, I[6], 'the result of %s is used without a check for failure' % I[2])
    return R.result()
def tested(fl, k, v, depth=0):
    """is the value ever compared, or handed to somebody who may compare it?"""
    F = fl.F[k]; al = {v}
    for _ in range(4):
        for ins, t in F.blocks:
            for I in ins:
                if I[0] == 'S':
                    if any(x[0] == 'L' and x[1][0] == 'v' and x[1][1] in al for x in nodes(I[2])):
                        if I[1][0] == 'v': al.add(I[1][1])
                        else: return True            # kept in memory: the analysis of the handlers looks at it
    for ins, t in F.blocks:
        for I in ins:
            if I[0] == 'C' and any(x[0] == 'L' and x[1][0] == 'v' and x[1][1] in al for a in I[4] for x in nodes(a)) and fl.targets(I): return True
        if t[0] == 'B' and any(x[0] == 'L' and x[1][0] == 'v' and x[1][1] in al for x in nodes(t[1])): return True
        if t[0] in 'WR' and t[1] is not None and any(x[0] == 'L' and x[1][0] == 'v' and x[1][1] in al for x in nodes(t[1])): return True
    return False
job('flow.results', c25, ('C25',), 60, 1)

# ---------------------------------------------------------------- C14
def c14(P):
    import provenance as pv
    fl = flow(P); R = Rep(fl, 'every file name, command and format in the program'); V = pv.Prov(fl)
    named = 0
    for k, b, n, I in fl.externs(fl.F):
        nm = I[2]
        if nm in pv.PATHS:
            for i in pv.PATHS[nm]:
                if i >= len(I[4]): continue
                R.ob('file names and commands'); R.fns.add(k); named += 1
                l = V.labels(k, I[4][i])
                if l: R.at('client-name', ['C14'], k, I[6], 'the name given to %s contains %s' % (nm, sorted(l)[0]))
        if nm in pv.PRINT and pv.PRINT[nm] < len(I[4]):
            e = I[4][pv.PRINT[nm]]; R.ob('formats')
            if e[0] == 'str': continue
            l = V.labels(k, e)
            if l: R.at('client-format', ['C14'], k, I[6], 'the format given to %s contains %s' % (nm, sorted(l)[0]))
    if not any(V.lab.get(o) for o in V.lab): raise prog.AnalysisBroken('nothing is received anywhere')
    R.samples = ['objects holding received bytes: %d' % len(V.lab), 'e.g. %s' % sorted(map(str, V.lab))[:6]]
    return R.result()
job('flow.names', c14, ('C14',), 120, 2)
