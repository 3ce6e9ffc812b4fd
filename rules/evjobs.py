"""The event loop, the accepting threads and the end of the server."""
import jobs, evsuite, dbjobs
from jobs import job, Result

def part(*p): return lambda P: dbjobs.pack(evsuite.run(P, p))
PROPS = ('C02', 'C16', 'C17', 'C19', 'C21', 'C22', 'C26', 'C27')
job('ev.accept', part('accept'), PROPS, 200, 3)
job('ev.cleanup', part('cleanup'), PROPS + ('C06',), 200, 2)
for i in range(6): job('ev.loop%d' % i, part((i, 6)), PROPS + ('C06', 'C23'), 300, 12)

def mon(P):
    import monsuite
    return dbjobs.pack(monsuite.run(P))
job('ev.mon', mon, ('C01', 'C02', 'C17', 'C22', 'C23'), 200, 3)

def sig(P):
    import sigsuite
    return dbjobs.pack(sigsuite.run(P))
job('ev.errno', sig, ('C20', 'C25'), 100, 1)
