"""M01-M10: multibody models, judged by spec/Mbs.tla (M01: by spec/Assembly.tla)."""
import collections, json
import run, mbs

QUICK = {'M01': 1200, 'M02': 260, 'M03': 420, 'M04': 220, 'M05': 220, 'M06': 240, 'M07': 450, 'M08': 180, 'M09': 260}
FACTOR = 14


def describe(c, x):
    g = [s for s in c['steps'] if s['op'] == 'gen']
    s = c['steps'][x['step'] - 1]
    t = 'model %s%s, step %d (%s): ' % (c['id'], ', equations %s' % g[0]['mode'] if g and 'mode' in g[0] else '', x['step'], x['op']) + '; '.join(sorted({'%s: %s' % (y['prop'], y['what']) for y in x['fails']}))
    if s.get('msg'):
        t += '\n  ' + s['msg']
    for s in c['steps'][:x['step']]:
        t += '\n    ' + ', '.join('%s=%s' % (k, mbs.text(v)) for k, v in s.items() if k not in ('res', 'msg', 'opt', 'mem') and v not in ('', []))
    return t[:6000]


def judged(bdir, cases):
    return mbs.judged(bdir, cases[0]['key'][0], cases)


def check(rep, bdir):
    pid = rep.pid
    rep.level = 'model_checking'
    n = QUICK[pid] * (1 if rep.quick() else FACTOR)
    cases = mbs.record(bdir, pid, rep.seed, n)
    fails, gen, dist = [], 0, 0
    for k in range(0, len(cases), 2000):
        f, g, d = judged(bdir, cases[k:k + 2000])
        fails += f; gen += g; dist += d
    byid = {c['id']: c for c in cases}
    fails = [x for x in fails if any(y['prop'] == pid for y in x['fails'])]
    fails.sort(key=lambda x: len(byid[x['case']]['steps']))
    shown, seen = 0, set()
    for x in fails:
        if x['case'] in seen or shown >= 5:
            continue
        seen.add(x['case'])
        again = mbs.again(bdir, [byid[x['case']]['key']], 'again%d' % len(seen))
        f2 = [y for y in judged(bdir, again)[0] if any(z['prop'] == pid for z in y['fails'])]
        if not f2:
            rep.cov['not_reproduced'] = rep.cov.get('not_reproduced', 0) + 1
            continue
        shown += 1
        rep.violation(describe(again[0], f2[0]), dict(family='M', key=again[0]['key']))
    modes = collections.Counter(s.get('mode', s['res']) for c in cases for s in c['steps'] if s['op'] == 'gen')
    ops = collections.Counter(s.get('kind') or s['op'] for c in cases for s in c['steps'])
    rep.cov.update(states=dist, transitions=gen - len(cases), traces_validated_against_impl=len(cases), evaluations=sum(s['op'] == 'run' for c in cases for s in c['steps']), formulations=dict(modes), actions=dict(ops),
                   rule='random calls of the public interface, good and bad, taken names and automatic ones, made from /repo (tools/aworker.py); what the model contains after every call compared with spec/Assembly.tla' if pid == 'M01' else
                        'random trees of bodies, frames, joints, loads, sensors, parameters, inputs and expressions (tools/mworker.py) entered through the public interface made from /repo; equations generated, '
                        'written as Python and called; every call followed by spec/Mbs.tla',
                   samples=[dict(id=c['id'], steps=[s['op'] + ':' + s.get('kind', s.get('n', '')) for s in c['steps']]) for c in (cases[0], cases[len(cases) // 2], cases[-1])])
    rep.assumptions = ['equations are generated only for histories that end with a complete tree; names shared by elements of different kinds may be refused or accepted'] if pid == 'M01' else ['two random states, times and input values per model; residual of the equations of motion bounded by 1e-7 of its own terms or 1e-9 of all terms',
                       'states with a singular or ill-conditioned mass matrix are not judged', 'generated functions are run in Python']


def replay(bdir, r):
    cases = mbs.again(bdir, [r['key']], 'replay')
    f, _, _ = judged(bdir, cases)
    for x in f:
        print(describe(cases[0], x))
    return not f
