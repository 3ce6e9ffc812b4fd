#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo by static analysis.
check.py --all [-j jobs]: runs every analysis once and prints all findings (development)."""
import sys, os, json, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import prog, jobs

def known():
    """known_findings.txt: `known: property=<id> <rule> | <function> | <message>` and `fixed: ...` lines"""
    out = {}; p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r'known: property=(\w+) (\S+) \| (.*?) \| (.*)$', l.strip())
        if m: out[m.groups()] = l.strip()
    return out

def fid(f): return (f['rule'], f['function'], f['msg'])

def main():
    a = sys.argv[1:]; quiet = '-q' in a; a = [x for x in a if x != '-q']
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    os.environ['VERIF_TIER'] = tier
    t0 = time.time(); jobs.load()
    if a and a[0] == '--all':
        P = prog.Program('release')
        names = [n for n in jobs.JOBS if len(a) < 2 or any(re.fullmatch(x, n) for x in a[1:])]
        res = jobs.run_jobs(names, P, verbose=not quiet)
        seen = {}
        for n, r in res.items():
            for f in r.get('findings', ()): seen.setdefault(fid(f), [f, []])[1].append(n)
        for k, (f, ns) in sorted(seen.items(), key=lambda x: x[1][0]['props']):
            print('FINDING %s [%s] %s: %s   {%s}' % (','.join(f['props']), f['rule'], f['where'], f['msg'], ns[0]))
        print('%d findings, %.1fs' % (len(seen), time.time() - t0)); return 0
    prop = a[0]
    titles = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = os.path.join(HERE, 'evidence', prop + '.json')
    if os.path.exists(ev): os.unlink(ev)
    names = [n for n, j in jobs.JOBS.items() if prop in j.props]
    try: P = prog.Program('release')
    except prog.AnalysisBroken as e: print('the program can not be analysed: %s' % e); return 2
    res = jobs.run_jobs(names, P)
    kn = known(); found = {}; obl = {}; fns = set(); inc = []; unknown = {}; steps = paths = exits = 0; samples = []
    for n in names:
        r = res[n]
        for k in ('incomplete', 'broken', 'error'):
            if k in r: inc.append((n, k, r[k]))
        for f in r.get('findings', ()):
            if prop in f['props']: found.setdefault(fid(f), f)
        for k, v in r.get('obl', {}).items(): obl[k] = obl.get(k, 0) + v
        fns |= set(r.get('fns', ())); steps += r.get('steps', 0); paths += r.get('paths', 0); exits += r.get('exits', 0)
        for k, v in r.get('unknown', {}).items(): unknown[k] = unknown.get(k, 0) + v
        samples += r.get('samples', [])[:3]
    viol = []; kf = []
    for k, f in found.items():
        (kf if (prop,) + k in kn else viol).append(f)
    for f in kf: print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['where'], f['msg']))
    for n, k, m in inc: print('INCOMPLETE: %s: %s: %s' % (n, k, m.strip().splitlines()[-1] if m.strip() else ''))
    cov = {'explanation': 'Static analysis of the typed program exported from the sources by clang; the deciding step inspects /repo as it is on this run.',
           'analyses': {n: {'seconds': round(res[n]['wall'], 1), 'status': next((k + ': ' + res[n][k].strip().splitlines()[-1] for k in ('incomplete', 'broken', 'error') if k in res[n]), 'complete')} for n in names},
           'functions_analysed': sorted(fns), 'functions_in_program': len(P.functions), 'obligations': obl, 'statements_interpreted': steps, 'paths_to_exits': exits or paths,
           'unknown_library_functions': unknown, 'rules': sorted({f['rule'] for f in found.values()}), 'incomplete': [list(x)[:2] for x in inc], 'samples': samples[:12]}
    out = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
           'assumptions': jobs.ASSUME if hasattr(jobs, 'ASSUME') else [], 'violations': [dict(f, trace=f['trace'][-40:]) for f in viol]}
    if len(inc) == len(names) and names and not viol:
        json.dump(out, open(ev, 'w'), indent=1)
        print('nothing could be analysed'); return 2
    json.dump(out, open(ev, 'w'), indent=1)
    print('%s: %s: %d analyses, %d functions, %d obligations, %.1fs' % (prop, titles[prop]['title'], len(names), len(fns), sum(obl.values()), time.time() - t0))
    if viol:
        rp = os.path.join(HERE, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as o:
            for f in viol:
                o.write('%s\n  rule %s: %s\n  analysed from: %s\n  path: %s\n\n' % (f['where'], f['rule'], f['msg'], f['entry'], '\n        '.join(f['trace'])))
        for f in viol: print('  %s: [%s] %s (from %s)' % (f['where'], f['rule'], f['msg'], f['entry']))
        print('VIOLATION property=%s replay=%s' % (prop, rp)); return 1
    return 0
if __name__ == '__main__': sys.exit(main())
