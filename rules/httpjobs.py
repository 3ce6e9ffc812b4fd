"""The request handling, explored from a new connection on: every handler from every situation it can be entered in."""
import jobs, httpsuite
from jobs import job, Result

def explore(lt):
    def run(P):
        S = httpsuite.HSuite(P)
        r = S.runall([S.first(lt)], 480, 200)
        out = Result(findings=[], obl=r['obl'], fns=sorted(r['fns']), steps=r['steps'], paths=r['paths'], exits=r['exits'], unknown=r['unknown'],
                     samples=['%s: %d situations of a connection' % (lt, r['descs'])])
        seen = set()
        for f in r['findings']:
            k = (f['rule'], f['function'], f['msg'], tuple(f['props']))
            if k not in seen: seen.add(k); f['entry'] += ' | ' + f.pop('desc'); out['findings'].append(f)
        if r['inc']: out['incomplete'] = '%d situations: %s' % (len(r['inc']), r['inc'][0][-200:])
        return out
    return run
HTTP = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C11', 'C16', 'C17', 'C18', 'C22', 'C26')
job('http.cache', explore('cache_connection'), HTTP, 560, 50)
job('http.mon', explore('mon_connection'), ('C01', 'C02', 'C06', 'C17', 'C22', 'C23'), 300, 10)

def roots(P):
    import rootsuite, dbjobs
    S = rootsuite.run(P); r = dbjobs.pack(S)
    r['exits'] = sum(x[1] for x in S.stats)
    return r
job('http.roots', roots, ('C01', 'C02', 'C03', 'C06', 'C16', 'C17', 'C21', 'C22', 'C26'), 120, 3)
