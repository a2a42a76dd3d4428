"""The S family: programs of the symbolic algebra."""
import json, os
import run

KEEP = ('op', 'out', 'name', 'shape', 'm', 'n', 'atoms', 'regs', 'eq', 'ne', 'lt', 'peq', 'pne', 'res', 'dump', 'pyshape', 'pylen')


def slim(c):
    return {'id': c['id'], 'envs': c['envs'],
            'steps': [dict([(k, s[k]) for k in KEEP if k in s], args=[{k: v for k, v in a.items() if k in ('r', 'lit')} for a in s['args']]) for s in c['steps']]}


def died(p):
    """a program during which the process died: only its last command counts, the
    ones before were complete"""
    p['steps'][-1].update(res='crash')
    return p


def record(bdir, profile, seed, count):
    return undie(bdir, run.pool_worker(bdir, 'symworker.py', ['gen', profile, seed], count, post=died))


def undie(bdir, cases):
    dead = [c for c in cases if 'died' in c]
    cases = [c for c in cases if 'died' not in c]
    # the records of the steps before the death come from a run of the program
    # without the command it died in
    for k, d in enumerate(dead):
        steps, crash = d['steps'], d['died'] != -14      # SIGALRM: took too long, only the part before counts
        while len(steps) > 1:
            last, steps = steps[-1], steps[:-1]
            r = replay(bdir, [dict(d, steps=steps)], 'dead%d' % k)
            if r and 'died' not in r[0]:
                c = r[0]
                if crash and len(c['steps']) == len(steps):
                    c['steps'].append(dict(last, dump={}, res='crash', out=''))
                    for a in c['steps'][-1]['args']:
                        if 'x' in a:
                            a['lit'] = lit(a['x'])
                cases.append(c)
                break
            crash = crash or bool(r) and r[0].get('died') not in (None, -14)
    return cases


def lit(x):
    import struct
    return {'t': 'int' if isinstance(x, int) else 'real', 's': [0, 1, 1], 'v': list(struct.unpack('>ii', struct.pack('>d', float(x))))}


def replay(bdir, cmds, tag):
    f = os.path.join(run.scratch(), 'cmds-%s.ndjson' % tag)
    open(f, 'w').write('\n'.join(json.dumps(c) for c in cmds) + '\n')
    return run.worker_range(bdir, 'symworker.py', ['run', f], 0, len(cmds), 'replay-' + tag, post=died)


GENSYMS = [['x', [0, 1, 1], 1], ['y', [0, 1, 1], 1], ['v', [1, 3, 1], 1], ['A', [2, 3, 3], 1]]


def generated(bdir, leaf, depth, seed, limit=None, batch=12):
    """programs of spec/AlgGen.tla: all chains up to the depth with all commands on
    their result; limit: that many chains of full depth, drawn with the seed"""
    import random
    txt, gen, dist, rc = run.tlc(bdir, 'AlgGen', envs=dict(GEN_DEPTH=str(depth), GEN_ONLY='0', GEN_LEAF=leaf), heap='4g')
    if rc:
        raise run.TlcError('AlgGen: TLC exit %d\n' % rc + txt[-2000:])
    progs = sorted(run.fails_in(txt, 'PROG'), key=lambda p: json.dumps(p, sort_keys=True))
    total = len(progs)
    if limit is not None:
        full = [p for p in progs if len(p['chain']) == depth]
        random.Random('AlgGen/%s/%s' % (leaf, seed)).shuffle(full)
        progs = [p for p in progs if len(p['chain']) < depth] + full[:limit]
    head = [dict(op='sym', name=n, shape=sh, kind=k, args=[], out='r%d' % (i + 1)) for i, (n, sh, k) in enumerate(GENSYMS)]
    cases = []
    for i, p in enumerate(progs):
        ls = sorted(p['leaves'], key=lambda q: json.dumps(q, sort_keys=True))
        for k in range(0, len(ls), batch):
            cases.append(dict(id='gen-%s-%d-%d-%d' % (leaf, seed, i, k), n=len(cases), syms=GENSYMS,
                              steps=json.loads(json.dumps(head + p['chain'] + [dict(q, out=q['out'] and 'z%d' % j) for j, q in enumerate(ls[k:k + batch])]))))
    return cases, total, dist


def run_generated(bdir, progs):
    f = os.path.join(run.scratch(), 'gen.ndjson')
    open(f, 'w').write('\n'.join(json.dumps(c) for c in progs) + '\n')
    return undie(bdir, run.pool_worker(bdir, 'symworker.py', ['run', f], len(progs), post=died))


if __name__ == '__main__':
    import sys, collections, time
    b = run._build.build()
    t0 = time.time()
    if sys.argv[1].startswith('gen:'):
        progs, _, _ = generated(b, sys.argv[1][4:], int(sys.argv[2]), 1, int(sys.argv[3]))
        cases = run_generated(b, progs)
    else:
        cases = record(b, sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    t1 = time.time()
    f, g, d = run.judge(b, 'SymAlg', cases, slim)
    print(len(cases), 'cases', sum(len(c['steps']) for c in cases), 'steps', g, d, 'rec %.1f judge %.1f' % (t1 - t0, time.time() - t1))
    byid = {c['id']: c for c in cases}
    first = {}
    for x in f:
        if x['case'] not in first or x['step'] < first[x['case']]['step']:
            first[x['case']] = x
    cnt = collections.Counter()
    ex = {}
    for x in first.values():
        c = byid[x['case']]
        s = c['steps'][x['step'] - 1]
        def kind(a):
            if 'lit' in a:
                return 'L%s' % a['x']
            for q in reversed(c['steps'][:x['step'] - 1]):
                if a['r'] in q.get('dump', {}):
                    t = q['dump'][a['r']]
                    return t['t'] + ''.join(map(str, t['s']))
            return '?'
        key = (x['op'], tuple(sorted(set(y['what'] for y in x['fails']))))
        cnt[key] += 1
        sz = len(json.dumps(c['steps'][:x['step']]))
        if key not in ex or sz < ex[key][0]:
            ex[key] = (sz, x, [kind(a) for a in s['args']], c)
    for k, n in cnt.most_common():
        print(n, k, ex[k][1]['case'], ex[k][1]['step'], ex[k][2])
        if len(sys.argv) > 4:
            for s in ex[k][3]['steps'][:ex[k][1]['step']]:
                if s['op'] in ('observe',): continue
                print('     ', s['op'], s.get('name', ''), s.get('shape', ''), [a.get('x', a.get('r')) for a in s['args']], s.get('index', ''), s.get('m', ''), s.get('n', ''), '->', s.get('out'), s['res'], s.get('msg', '')[:60])
            print('      want', ex[k][1]['want'][:1], 'got', ex[k][1]['got'][:1])
    run.cleanup()
