"""S01-S07: programs of the symbolic algebra, recorded from the real code and
judged by spec/SymAlg.tla."""
import json
import run, sym

# property -> profiles and their share of the programs
PROFILES = {
    'S01': [('base', 5), ('shape', 1), ('rel', 1), ('python', 1)],
    'S02': [('shape', 5), ('base', 2), ('python', 1)],
    'S03': [('diff', 7), ('base', 1)],
    'S04': [('subs', 7), ('base', 1)],
    'S05': [('persist', 6), ('base', 1), ('diff', 1)],
    'S06': [('rel', 8)],
    'S07': [('python', 6), ('shape', 2)],
}
QUICK, THOROUGH = 3000, 48000
# property -> programs enumerated by spec/AlgGen.tla: (commands on the results, depth
# of the chains, chains of full depth: quick, thorough; None: all)
GENERATED = {
    'S01': ('alg', (1, None), (2, 1000)),
    'S02': ('alg', (1, None), (2, 400)),
    'S03': ('diff', (2, 1500), (2, None)),
    'S04': ('subs', (2, 1500), (2, None)),
}

# folding a function with its "inverse" (asserted by the project's own tests)
PROBES = [('asin', 'sin', 2.0), ('acos', 'cos', -1.5), ('atan', 'tan', 2.0)]


def texts(x):
    return sorted(set(y['what'] for y in x['fails']))


def describe(case, x):
    lines = ['program %s, step %d (%s): %s' % (case['id'], x['step'], x['op'], '; '.join(texts(x)))]
    for k, s in enumerate(case['steps'][:x['step']]):
        lines.append('  %2d %s %s %s%s -> %s %s' % (k + 1, s['op'], s.get('name', ''), [a.get('x', a.get('r')) for a in s['args']],
                     ''.join(' %s=%s' % (q, s[q]) for q in ('shape', 'index', 'm', 'n', 'regs') if q in s), s.get('out', ''), s['res']))
    lines.append('  specification: %s' % x['want'][:1])
    lines.append('  code:          %s' % x['got'][:1])
    return '\n'.join(lines)


def strip(case, upto):
    """the commands alone, for replaying"""
    c = dict(id=case['id'], syms=case['syms'], envs=case['envs'])
    c['steps'] = [{k: v for k, v in s.items() if k not in ('res', 'msg', 'dump', 'atoms', 'eq', 'ne', 'lt', 'peq', 'pne', 'pyshape', 'pylen')} for s in case['steps'][:upto]]
    return c


def first_fails(fails, pid):
    res = {}
    for x in fails:
        if any(pid in f['props'] for f in x['fails']):
            if x['case'] not in res or x['step'] < res[x['case']]['step']:
                res[x['case']] = x
    return res


def probes():
    cases = []
    for f, g, v in PROBES:
        h = [sym.lit(v)['v']] + [[0, 0]] * 4
        cases.append(dict(id='probe-%s-%s' % (f, g), n=0, syms=[['x', [0, 1, 1], 1]], envs=[{'x': [h]}, {'x': [h]}], steps=[
            dict(op='sym', name='x', shape=[0, 1, 1], kind=1, args=[], out='r1'),
            dict(op=g, args=[{'r': 'r1'}], out='r2'), dict(op=f, args=[{'r': 'r2'}], out='r3')]))
    return cases


def check(rep, bdir):
    pid = rep.pid
    total = QUICK if rep.quick() else THOROUGH
    share = sum(w for _, w in PROFILES[pid])
    cases = []
    for prof, w in PROFILES[pid]:
        cases += sym.record(bdir, prof, rep.seed, max(total * w // share, 8))
    if pid == 'S01':
        cases += sym.replay(bdir, probes(), 'probes')
    if pid == 'S01':
        # the arithmetic of the specifications obeys its laws
        txt, g, d, rc = run.tlc(bdir, 'SeriesLaws', workers=4)
        if rc:
            raise run.TlcError('SeriesLaws: TLC exit %d\n' % rc + txt[-2000:])
        rep.cov['SeriesLaws_states'] = d
    if pid in GENERATED:
        leaf, (depth, limit) = GENERATED[pid][0], GENERATED[pid][1 if rep.quick() else 2]
        progs, chains, gstates = sym.generated(bdir, leaf, depth, rep.seed, limit)
        enumerated = sym.run_generated(bdir, progs)
        rep.cov['generated_by_AlgGen'] = dict(commands_on=leaf, depth=depth, chains=chains, replayed_programs=len(enumerated), exhaustive=limit is None, states=gstates)
        cases += enumerated
    byid = {c['id']: c for c in cases}
    fails, gen, dist = [], 0, 0
    for k in range(0, len(cases), 12000):
        f, g, d = run.judge(bdir, 'SymAlg', cases[k:k + 12000], sym.slim)
        fails += f; gen += g; dist += d
    bad = first_fails(fails, pid)
    # every rejection is repeated on a fresh run of the same program
    for cid in sorted(bad, key=lambda c: bad[c]['step'])[:6]:
        x = bad[cid]
        cmds = strip(byid[cid], x['step'])
        again = sym.replay(bdir, [json.loads(json.dumps(cmds))], 'again')
        if x['op'] != 'crash' and not any(f['what'] == 'the process died' for f in x['fails']):
            f2, _, _ = run.judge(bdir, 'SymAlg', again, sym.slim)
            if not first_fails(f2, pid):
                rep.cov['not_reproduced'] = rep.cov.get('not_reproduced', 0) + 1
                continue
        key = cid if cid.startswith('probe-') else None
        rep.violation(describe(byid[cid], x), dict(family='S', program=cmds), key)
    ops = {}
    for c in cases:
        for s in c['steps']:
            ops[s['op']] = ops.get(s['op'], 0) + 1
    rep.cov.update(states=dist, transitions=gen - len(cases), traces_validated_against_impl=len(cases),
                   evaluations=sum(ops.values()), refused=sum(s['res'] == 'err' for c in cases for s in c['steps']),
                   operations=ops, profiles=[p for p, _ in PROFILES[pid]],
                   rule='random programs over a workspace of expressions (profile weights in tools/symworker.py), executed on the extension module built from /repo; every recorded step judged by spec/SymAlg.tla',
                   samples=[strip(cases[0], 99)['steps'], strip(cases[len(cases) // 2], 99)['steps']])
    rep.assumptions = ['values are compared at two sample environments per program, as truncated power series with a rigorous error bound; identities that fail only outside the sampled points are seen through other programs',
                       'doubles of the TLC module override spec/Series.java']


def replay(bdir, r):
    cases = sym.replay(bdir, [r['program']], 'replay')
    if 'died' in cases[0]:
        print('the process died')
        return False
    f, _, _ = run.judge(bdir, 'SymAlg', cases, sym.slim)
    for x in f:
        print(describe(cases[0], x))
    return not f
