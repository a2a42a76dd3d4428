"""Common parts of the checks: building, running the real code in isolated
worker processes, running TLC, collecting failures."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as _build

PY = _build.PY
NPROC = min(8, os.cpu_count() or 8)
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = os.path.join(VERIF, '.build', 'run')
        os.makedirs(base, exist_ok=True)
        SCRATCH = tempfile.mkdtemp(dir=base)
    return SCRATCH


def cleanup():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def env(bdir):
    e = dict(os.environ)
    e.update(QT_QPA_PLATFORM='offscreen', MPLBACKEND='agg', PYTHONPATH=bdir + ':' + os.path.join(VERIF, 'tools'), PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', HOME=scratch())
    return e


def worker_range(bdir, script, args, first, count, tag, post=None, cwd=None, limit=600):
    """runs `script args first count out progress` until every case of the range
    was executed; a case during which the process dies is recorded as such."""
    out = os.path.join(scratch(), 'rec-%s.ndjson' % tag)
    prog = os.path.join(scratch(), 'prog-%s' % tag)
    if os.path.exists(out):
        os.unlink(out)
    i, end = first, first + count
    t0 = time.time()
    while i < end and time.time() - t0 < limit:
        if os.path.exists(prog):
            os.unlink(prog)
        r = subprocess.run([PY, os.path.join(VERIF, 'tools', script)] + [str(a) for a in args] + [str(i), str(end - i), out, prog],
                           env=env(bdir), cwd=cwd or scratch(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode == 0:
            break
        try:
            p = json.loads(open(prog).read())
        except Exception:
            raise RuntimeError('worker %s failed: %s' % (script, r.stderr.decode(errors='replace')[-3000:]))
        p['died'] = r.returncode
        if r.returncode > 0:
            raise RuntimeError('worker %s failed: %s' % (script, r.stderr.decode(errors='replace')[-3000:]))
        with open(out, 'a') as f:
            f.write(json.dumps(post(p) if post else p) + '\n')
        i = p['n'] + 1
    if not os.path.exists(out):
        return []
    res = [json.loads(l) for l in open(out)]
    os.unlink(out)
    return res


def pool_worker(bdir, script, args, count, **kw):
    """the same over NPROC processes"""
    chunk = (count + NPROC - 1) // NPROC
    jobs = [(k * chunk, min(chunk, count - k * chunk)) for k in range(NPROC) if k * chunk < count]
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(lambda j: worker_range(bdir, script, args, j[0], j[1], '%s-%d' % (script, j[0]), **kw), jobs))
    return [c for r in rs for c in r]


class TlcError(Exception):
    pass


def tlc(bdir, spec, cfg=None, envs=None, workers=1, heap='2g', extra=(), timeout=800):
    """(output lines, generated, distinct, exit code)"""
    meta = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ); e.update(envs or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', ':'.join([os.path.join(bdir, 'classes'), _build.TLA, _build.COMM]), 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), '-config', (cfg or spec) + '.cfg'] + list(extra) + [spec + '.tla']
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    txt = r.stdout.decode(errors='replace')
    m = re.findall(r'(\d+) states generated, (\d+) distinct', txt)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return txt, gen, dist, r.returncode


def fails_in(txt, tag='FAIL'):
    res = []
    for l in txt.splitlines():
        if l.startswith('"%s ' % tag):
            res.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return res


def judge(bdir, spec, cases, slim, nproc=NPROC, cfg=None, extra_env=None, heap='2g', timeout=800):
    """TLC on the recorded cases, in parallel; returns (failures, generated, distinct).
    Every case must have been consumed completely (POSTCONDITION)."""
    if not cases:
        return [], 0, 0
    n = min(nproc, len(cases))
    parts = [[] for _ in range(n)]
    size = [0] * n
    for c in cases:   # balance by size of the record
        t = json.dumps(slim(c))
        k = size.index(min(size))
        parts[k].append(t); size[k] += len(t)
    def one(k):
        f = os.path.join(scratch(), 'cases-%s-%d.ndjson' % (spec, k))
        open(f, 'w').write('\n'.join(parts[k]) + '\n')
        txt, g, d, rc = tlc(bdir, spec, cfg, dict({'CASES': f}, **(extra_env or {})), heap=heap, timeout=timeout)
        if rc != 0:
            raise TlcError(spec + ': TLC exit %d\n' % rc + '\n'.join(l for l in txt.splitlines() if not l.startswith(('"FAIL', 'Loading', 'Semantic', 'Parsing', 'Linting')))[-3000:])
        os.unlink(f)
        return fails_in(txt), g, d
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    return [f for r in rs for f in r[0]], sum(r[1] for r in rs), sum(r[2] for r in rs)
