"""Analyses of the operations of db.h (class invariants, contracts)."""
import re, os
import jobs, dbsuite
from jobs import job, Result

def pack(S):
    W, E = S.W, S.E; out = []
    for f in W.findings.values():
        m = re.search(r'\((\w+)', f.where or '')
        out.append(dict(rule=f.rule, props=sorted(set(f.props)), where=f.where, function=m.group(1) if m else '', msg=re.sub(r'\b[HM]:\d+:\d+|\bs\d+\b', '_', f.msg), entry=f.entry, trace=f.trace))
    return Result(findings=out, obl=dict(W.obl), fns=[k for k in E.fns], steps=E.steps, paths=E.paths, exits=sum(x[1] for x in S.stats),
                  unknown=dict(getattr(E, 'unknown', {})), samples=['%s: %d exits' % (x[0], x[1]) for x in S.stats[:3]])
def op(o, limit):
    return lambda P: pack(dbsuite.run(P, [o], limit))

COMMON = ('C06', 'C07', 'C08', 'C09', 'C26')
for o, props in ((('table_get', False), ('C04', 'C05')), (('table_get', True), ('C04', 'C05')), (('entry_get', 'read'), ('C04', 'C05', 'C11', 'C03')),
                 (('entry_get', 'write'), ('C04', 'C05', 'C03', 'C11')), (('entry_get', 'delete'), ('C04', 'C05')), ('entry_delete', ('C05',)), ('table_delete', ('C05',)),
                 ('table_close', ('C05',)), ('entry_close', ('C05', 'C16')), ('complete', ('C05', 'C03')), ('allocate', ('C05', 'C03', 'C16')), ('setup', ('C16', 'C01'))):
    n = 'db.' + (o if o.__class__ is str else '_'.join(map(str, o)))
    job(n, op(o, 250), set(props) | set(COMMON), 260, 5 if 'delete' in n else 2)
