"""The M family: multibody models (development runner: mbs.py PROFILE SEED COUNT)."""
import collections, json, os, struct, sys, time
import run

KEEP = ('id', 'prof', 'steps', 'died')
STEP = ('msg', 'opt', 'name')


def slim(c):
    r = {k: c[k] for k in KEEP if k in c}
    r['steps'] = [{k: v for k, v in s.items() if k not in STEP} for s in r['steps']]
    return r


def text(x):
    """readable form of a recorded value"""
    fl = lambda h: struct.unpack('>d', struct.pack('>ii', h[0], h[1]))[0]
    if isinstance(x, dict):
        if x.get('t') in ('int', 'real'):
            return '%.6g' % fl(x['v'])
        if x.get('t') == 'sym':
            return x['n']
        if 't' in x and 'a' in x:
            return x['t'] + '(' + ','.join(text(y) for y in x['a']) + ')'
        return str({k: text(v) for k, v in x.items()})
    if isinstance(x, list):
        if len(x) == 3 and all(isinstance(y, int) for y in x):
            return '%.9g' % fl(x[1:]) if x[0] else 'nan'
        if len(x) == 2 and all(isinstance(y, int) for y in x):
            return '%.9g' % fl(x)
        return '[' + ' '.join(text(y) for y in x) + ']'
    return str(x)


def worker(prof):
    return 'aworker.py' if prof == 'M01' else 'mworker.py'


def spec(prof):
    return 'Assembly' if prof == 'M01' else 'Mbs'


def aslim(c):
    return dict(id=c['id'], first=c.get('first', {}), steps=[{k: v for k, v in s.items() if k not in ('msg', 'got')} for s in c['steps']])


def judged(bdir, prof, cases):
    return run.judge(bdir, spec(prof), cases, aslim if prof == 'M01' else slim, timeout=850)


def record(bdir, prof, seed, count, first=0):
    return run.pool_worker(bdir, worker(prof), ['gen', prof, seed], count)


def again(bdir, keys, tag='again', keep=False):
    if keep:
        os.environ['M_KEEP'] = '1'
    return run.worker_range(bdir, worker(keys[0][0]), ['list', json.dumps(keys)], 0, len(keys), 'm-' + tag)


if __name__ == '__main__':
    b = run._build.build()
    t0 = time.time()
    cases = record(b, sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    t1 = time.time()
    os.makedirs('/tmp/m', exist_ok=True)
    json.dump(cases, open('/tmp/m/last.json', 'w'))
    byid = {c['id']: c for c in cases}
    f, g, d = judged(b, sys.argv[1], cases)
    print(len(cases), 'cases', collections.Counter(c['steps'][-1]['res'] for c in cases if c['steps']), 'rec %.1f judge %.1f' % (t1 - t0, time.time() - t1))
    cnt = collections.OrderedDict()
    for x in f:
        for y in x['fails']:
            cnt.setdefault((y['prop'], y['what']), []).append(x)
    for k, v in sorted(cnt.items(), key=lambda q: -len(q[1])):
        print(len(v), k)
        v.sort(key=lambda x: len(byid[x['case']]['steps']))
        seen = set()
        for x in v[:12]:
            c = byid[x['case']]
            s = c['steps'][x['step'] - 1]
            g = [t for t in c['steps'] if t['op'] == 'gen']
            print('    ', x['case'], x['op'], 'step', x['step'], 'of', len(c['steps']), g[0].get('mode', '') if g else '', s.get('msg', '')[-230:].replace('\n', ' '))
    run.cleanup()
