"""The G family: equation systems."""
import json, os, sys
import run

KEEP = ('op', 'name', 'shape', 'kind', 'comment', 'init', 'simp', 'imp', 'lhs', 'lvec', 'rhs', 'rvec', 'res', 'changed', 'obs', 'back')


def slim(c):
    return {'id': c['id'], 'env': c['env'], 'steps': [{k: s[k] for k in KEEP if k in s} for s in c['steps']],
            'finals': [dict(mode=f['mode'], res=f['res'], lists=[{k: x[k] for k in ('inc', 'res', 'list')} for x in f['lists']], **({'obs': f['obs']} if 'obs' in f else {})) for f in c['finals']]}


def record(bdir, profile, seed, count):
    return run.pool_worker(bdir, 'eqworker.py', ['gen', profile, seed], count)


def again(bdir, ids, tag='again'):
    return run.worker_range(bdir, 'eqworker.py', ['list', json.dumps(ids)], 0, len(ids), 'eq-' + tag)


if __name__ == '__main__':
    import collections, time
    b = run._build.build()
    t0 = time.time()
    cases = record(b, sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    t1 = time.time()
    json.dump(cases, open('/tmp/g/last.json', 'w'))
    dead = [c for c in cases if 'died' in c]
    for c in dead: print('DIED', c['id'], c['died'])
    try:
        f, g, d = run.judge(b, 'EqGraph', [c for c in cases if 'died' not in c], slim)
    except run.TlcError as e:
        print(e); sys.exit(1)
    print(len(cases), 'cases', sum(len(c['steps']) for c in cases), 'steps', g, d, 'rec %.1f judge %.1f' % (t1 - t0, time.time() - t1))
    cnt = collections.OrderedDict()
    for x in f:
        for y in x['fails']:
            cnt.setdefault((x['op'], y['prop'], y['what']), []).append((x['case'], x['step']))
    for k, v in sorted(cnt.items(), key=lambda q: -len(q[1])):
        print(len(v), k, v[:4])
    run.cleanup()
