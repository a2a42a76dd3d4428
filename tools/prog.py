"""The W family: generated programs (development runner: prog.py LANG SEED COUNT)."""
import collections, json, os, sys, time
import run

KEEP = ('id', 'lang', 'env', 'steps', 'order', 'runs', 'sensors', 'visual', 'res', 'died', 'prog')


def slim(c):
    r = {k: c[k] for k in KEEP if k in c}
    if 'died' in r:
        r.setdefault('res', 'err')
    r['steps'] = [{k: v for k, v in s.items() if k not in ('msg', 'obs', 'back', 'changed')} for s in r['steps']]
    return r


def record(bdir, lang, seed, count, first=0):
    return run.pool_worker(bdir, 'wworker.py', ['gen', lang, seed], count)


def again(bdir, keys, tag='again', keep=False):
    if keep:
        os.environ['W_KEEP'] = '1'
    return run.worker_range(bdir, 'wworker.py', ['list', json.dumps(keys)], 0, len(keys), 'w-' + tag)


if __name__ == '__main__':
    b = run._build.build()
    t0 = time.time()
    cases = record(b, sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    t1 = time.time()
    os.makedirs('/tmp/w', exist_ok=True)
    json.dump(cases, open('/tmp/w/last.json', 'w'))
    byid = {c['id']: c for c in cases}
    f, g, d = run.judge(b, 'ProgSem', cases, slim)
    print(len(cases), 'cases', collections.Counter(c.get('res') for c in cases), 'rec %.1f judge %.1f' % (t1 - t0, time.time() - t1))
    cnt = collections.OrderedDict()
    for x in f:
        for y in x['fails']:
            cnt.setdefault((y['prop'], y['what']), []).append(x)
    for k, v in sorted(cnt.items(), key=lambda q: -len(q[1])):
        print(len(v), k)
        v.sort(key=lambda x: len(byid[x['case']]['steps']))
        seen = set()
        for x in v[:12]:
            c = byid[x['case']]
            m = c.get('msg', '')[-300:].replace('\n', ' ')
            print('    ', x['case'], x['op'], 'steps', len(c['steps']), 'opt', c.get('opt'), m)
    w = collections.Counter(l for c in cases for l in c.get('warn', []))
    print('warnings', w.most_common(8))
    run.cleanup()
