"""The saved snapshot."""
from jobs import job
import dbjobs
def part(p):
    def run(P):
        import snapsuite
        S = snapsuite.run(P, (p,)); r = dbjobs.pack(S)
        if S.cut: r['incomplete'] = S.cut
        return r
    return run
for p, props in (('gc', ('C13', 'C12')), ('close', ('C13', 'C12')), ('sigchld', ('C13',))): job('db.snapshot_' + p, part(p), props, 250, 4)
