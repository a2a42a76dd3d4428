"""G01-G06: equation systems, recorded from the real code and judged by
spec/EqGraph.tla."""
import json, os
import run, eq

# property -> [(profile, systems in the quick tier)], modes in which the system is built
PLAN = {
    'G01': ([('accept', 1500), ('graph', 100)], 'V0'),
    'G02': ([('graph', 250), ('missing', 200), ('cycle', 120), ('coupled', 200)], 'V0,V1'),
    'G03': ([('graph', 500)], 'V0,V1'),
    'G04': ([('coupled', 1500)], 'V0,V1,S0'),
    'G05': ([('graph', 450)], 'S0,S1'),
    'G06': ([('accept', 900), ('graph', 250)], 'V0,V1,S1'),
}
FACTOR = 14   # thorough / quick


def term(t):
    k = t['t']
    if k == 'sym':
        return t['n'] + ('' if t['s'][0] == 0 else '[%d]' % t['s'][1] if t['s'][0] == 1 else '[%dx%d]' % tuple(t['s'][1:]))
    if k in ('int', 'real'):
        return str(t.get('v'))
    return k + '(' + ', '.join([term(x) for x in t.get('a', [])] + [str(t[q]) for q in ('i', 'j') if q in t]) + ')'


def describe(case, x, texts):
    lines = ['system %s, step %d (%s): %s' % (case['id'], x['step'], x['op'], '; '.join(texts))]
    for k, s in enumerate(case['steps']):
        if s['op'] == 'var':
            lines.append('  %2d variable %s shape %s kind %#x%s -> %s %s' % (k + 1, s['name'], s['shape'], s['kind'], ' initially ' + term(s['init']) if 'init' in s else '', s.get('res'), s.get('msg', '')))
        else:
            lines.append('  %2d equation %s = %s%s -> %s %s' % (k + 1, [term(y) for y in s['lhs']], [term(y) for y in s['rhs']], ' (implicit)' if s['imp'] else '', s.get('res'), s.get('msg', '')))
    for f in case['finals']:
        if x['op'] == 'produce ' + f['mode']:
            lines.append('  built in mode %s: %s %s' % (f['mode'], f['res'], f.get('msg', '')))
            for li in f['lists']:
                lines.append('  wanted %#x: %s' % (li['inc'], li['res']))
                for a in li['list']:
                    lines.append('      %s := %s%s' % ([term(y) for y in a['lhs']], [term(y) for y in a['rhs']], ' (implicit)' if a['imp'] else ''))
    return '\n'.join(lines)[:6000]


def mine(fails, pid):
    """case -> (first failing record, its texts of this property)"""
    res = {}
    for x in fails:
        t = sorted(set(y['what'] for y in x['fails'] if y['prop'] == pid))
        if t and (x['case'] not in res or x['step'] < res[x['case']][0]['step']):
            res[x['case']] = (x, t)
    return res


def check(rep, bdir):
    pid = rep.pid
    plan, modes = PLAN[pid]
    os.environ['EQ_MODES'] = modes
    cases = []
    for prof, n in plan:
        cases += eq.record(bdir, prof, rep.seed, n if rep.quick() else n * FACTOR)
    byid = {c['id']: c for c in cases}
    fails, gen, dist = [], 0, 0
    live = [c for c in cases if 'died' not in c]
    for k in range(0, len(live), 6000):
        f, g, d = run.judge(bdir, 'EqGraph', live[k:k + 6000], eq.slim, timeout=850)
        fails += f; gen += g; dist += d
    for c in cases:
        if 'died' in c:
            rep.violation('system %s: the process died (%s)' % (c['id'], c['died']), dict(family='G', modes=modes, id=[c['profile'], c['seed'], int(c['id'].split('-')[-1])]))
    bad = mine(fails, pid)
    for cid in sorted(bad, key=lambda c: len(byid[c]['steps']))[:5]:
        key = [cid.rsplit('-', 2)[0], int(cid.rsplit('-', 2)[1]), int(cid.rsplit('-', 2)[2])]
        again = eq.again(bdir, [key])
        if 'died' not in again[0]:
            f2, _, _ = run.judge(bdir, 'EqGraph', again, eq.slim)
            if not mine(f2, pid):
                rep.cov['not_reproduced'] = rep.cov.get('not_reproduced', 0) + 1
                continue
        rep.violation(describe(byid[cid], *bad[cid]), dict(family='G', id=key, modes=modes))
    lists = [l for c in live for f in c['finals'] for l in f['lists']]
    rep.cov.update(states=dist, transitions=gen - len(live), traces_validated_against_impl=len(cases),
                   evaluations=sum(len(c['steps']) for c in cases), additions_refused=sum(s['res'] == 'err' for c in live for s in c['steps']),
                   systems_refused=sum(f['res'] == 'err' for c in live for f in c['finals']), assignment_lists=len(lists),
                   assignments_executed=sum(len(l['list']) for l in lists), profiles=dict(plan), modes=modes,
                   rule='random equation systems (profiles in tools/eqworker.py) built with the extension module made from /repo; every addition, refusal, observation and produced assignment list is judged by spec/EqGraph.tla, which executes the lists next to the solution of the equations entered',
                   samples=[dict(id=c['id'], steps=[{k: v for k, v in s.items() if k in ('op', 'name', 'shape', 'kind', 'lhs', 'rhs', 'res')} for s in c['steps'][:6]]) for c in (cases[0], cases[-1])])
    rep.assumptions = ['values are compared at one random assignment of the given data per system, with a rigorous error bound (Series.java)',
                       'element-wise states and derivatives of non-variables are outside the generated systems']


def replay(bdir, r):
    os.environ['EQ_MODES'] = r['modes']
    cases = eq.again(bdir, [r['id']], 'replay')
    if 'died' in cases[0]:
        print('the process died')
        return False
    f, _, _ = run.judge(bdir, 'EqGraph', cases, eq.slim)
    bad = mine(f, r['property'])
    for c in bad:
        print(describe(cases[0], *bad[c]))
    return not bad
