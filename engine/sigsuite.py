"""What a signal handler leaves behind: errno."""
from evsuite import *
import flow
PURE = {'memcpy', 'memset', 'memmove', 'memcmp', 'strlen', 'strcmp', 'strncmp', '__errno_location', '__assert_fail', 'abort', '_exit', 'sigemptyset', 'sigfillset', 'sigaddset', 'htons', 'htonl', 'ntohs'}
class Sig(Ev):
    def load(self, E, st, o, off, w, t):
        if o != ERRNO: super().load(E, st, o, off, w, t)
    def x_write(self, E, st, a, I): return [(st, fresh(-1, 1 << 20, 'write'))]
    def x_read(self, E, st, a, I): return [(st, fresh(-1, 1 << 20, 'read'))]
    def x_close(self, E, st, a, I): return [(st, fresh(-1, 0, 'close'))]
    def call(self, E, st, name, args, I):
        if name not in E.p.functions and name.split('/')[0] not in PURE and not name.startswith('std::'):
            self.ob('calls that may change errno'); st.info.setdefault(ERRNO, Info('global', 'i32', K(4))); st.cells(ERRNO)[(0, 32)] = fresh(1, 4095, 'errno'); st.g['changed'] = E.where()
        return super().call(E, st, name, args, I)
def run(P):
    S = EvSuite(P); S.W = Sig(P); S.W.suite = S; S.E = Engine(P, S.W, 100); S.E.models = dict(libc.MODELS); S.E.models['__errno_location'] = lambda E, st, a, I: [(st, Ptr(ERRNO))]
    W, E = S.W, S.E; H = sorted({k for ks in flow.Flow(P).handlers().values() for k in ks if k in P.functions})
    if not H: raise AnalysisBroken('no signal handler found')
    for k in H:
        st = State(); st.frames = []; e0 = fresh(0, 4095, 'errno'); st.info[ERRNO] = Info('global', 'i32', K(4)); st.cells(ERRNO)[(0, 32)] = e0
        args = [fresh(1, 64, 'signal')] + [fresh(1, 1 << 40, 'arg') for _ in P.fn(k).params[1:]]
        for s, v in S.go(st, k, args, 'signal handler ' + k.split('::')[-1]):
            W.ob('returns of signal handlers')
            if s.current(s.mem[ERRNO][(0, 32)]) != s.current(e0): W.report(E, s, 'errno', ('C20', 'C25'), 'a signal handler returns with errno changed (%s)' % s.g.get('changed', '?'), where=S.where)
    return S
if __name__ == '__main__':
    import prog
    S = run(prog.Program('release')); print(S.stats, S.W.obl, getattr(S.E, 'unknown', {}))
    for f in S.W.findings.values(): print(f.props, f.text()[:400])
