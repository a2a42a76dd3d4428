"""The P family: printed expressions."""
import collections, json, os, subprocess, sys, time
import run, pexec

KEEP = ('id', 'lang', 'env', 'expr', 'errs', 'obs', 'ast', 'died')


def slim(c):
    r = {k: c[k] for k in KEEP if k in c}
    if 'died' in r:
        r.setdefault('expr', {'t': 'zero', 's': [0, 1, 1]}); r.setdefault('env', {})
    if 'obs' in r:
        r['obs'] = {k: v for k, v in r['obs'].items() if k != 'msg'}
    if 'ast' in r and r['ast']['k'] == 'syntax':
        r['ast'] = {'k': 'syntax'}
    return r


_mod = {}


def fmodule(bdir):
    """the helper functions generated next to every Fortran program"""
    if 'd' not in _mod:
        d = os.path.join(run.scratch(), 'fmod')
        os.makedirs(d, exist_ok=True)
        code = "from pymbs.symbolics import *\ng=Graph()\nx=g.addVariable('x',(),VarKind.Variable,1.0)\ng.addEquation(der(x),-x)\ng.buildGraph(True)\ng.writeCode('f90','m',%r)" % d
        r = subprocess.run([run.PY, '-c', code], env=run.env(bdir), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(os.path.join(d, 'functionmodule.f90')):
            raise RuntimeError('no Fortran function module: ' + r.stdout.decode()[-500:])
        r = subprocess.run(['gfortran', '-w', '-O0', '-c', '-J', d, '-o', os.path.join(d, 'functionmodule.o'), os.path.join(d, 'functionmodule.f90')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        _mod['d'], _mod['err'] = d, r.stdout.decode()[-1500:] if r.returncode else None
    return _mod['d'], _mod['err']


def finish(bdir, lang, cases):
    if lang == 'f90':
        mod, err = fmodule(bdir)
        if err:
            for c in cases:
                c['obs'] = dict(res='err', msg='functionmodule.f90 does not compile: ' + err)
            return cases
        return pexec.observe(cases, lang, mod)
    if lang == 'c':
        return pexec.observe(cases, lang)
    if lang in ('m', 'mo'):
        import langparse
        for c in cases:
            if not c['errs'] and 'died' not in c:
                try:
                    c['ast'] = langparse.expression(c['text'], lang)
                except langparse.Bad as ex:
                    c['ast'] = dict(k='syntax', msg=str(ex))
    return cases


def record(bdir, lang, seed, count):
    return finish(bdir, lang, run.pool_worker(bdir, 'pworker.py', ['gen', lang, seed], count))


def again(bdir, keys, tag='again'):
    cs = run.worker_range(bdir, 'pworker.py', ['list', json.dumps(keys)], 0, len(keys), 'p-' + tag)
    return finish(bdir, keys[0][0], cs)


if __name__ == '__main__':
    b = run._build.build()
    t0 = time.time()
    cases = record(b, sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    t1 = time.time()
    json.dump(cases, open('/tmp/p/last-%s.json' % sys.argv[1], 'w'))
    byid = {c['id']: c for c in cases}
    f, g, d = run.judge(b, 'PrintSem', cases, slim)
    print(len(cases), 'cases', sum(c['errs'] > 0 for c in cases), 'refused', 'rec %.1f judge %.1f' % (t1 - t0, time.time() - t1))
    cnt = collections.OrderedDict()
    for x in f:
        cnt.setdefault(x['what'], []).append(x)
    for k, v in sorted(cnt.items(), key=lambda q: -len(q[1])):
        print(len(v), k)
        v.sort(key=lambda x: len(byid[x['case']]['text']))
        for x in v[:12]:
            c = byid[x['case']]
            print('    ', x['case'], c['text'][:200].replace('\n', ' '), c.get('obs', {}).get('msg', c.get('ast', {}).get('msg', ''))[-200:].replace('\n', ' '), 'want', str(x['want'])[:120], 'got', str(x['got'])[:120])
    run.cleanup()
