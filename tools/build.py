"""Builds the extension module from /repo's current working tree, plus the
observation functions of harness/vdump.cpp, into /verif/.build/<content hash>.
Also compiles the TLC module override.  Prints the directory."""
import hashlib, os, re, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/pymbs-venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'
DIRS = ['', 'functions', 'graph', 'printer', 'writer', 'wrapper']
PCH = ['Python.h', 'iostream', 'string', 'math.h', 'map', 'fstream', 'vector', 'algorithm', 'sstream', 'set', 'list', 'functional', 'unordered_map']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])


def sources():
    """the .cpp files the project's own CMake files name"""
    res = []
    for d in DIRS:
        base = os.path.join(REPO, 'symbolics', d)
        txt = open(os.path.join(base, 'CMakeLists.txt'), errors='replace').read()
        have = sorted(f for f in os.listdir(base) if f.endswith('.cpp'))
        if re.search(r'file\s*\(\s*GLOB', txt, re.I):
            names = have
        else:
            named = set(re.findall(r'[\w./-]+\.cpp', txt))
            names = [f for f in have if f in named]
        res += [os.path.join(base, f) for f in names]
    return res


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'symbolics'), os.path.join(REPO, 'pymbs')]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn[:] = sorted(x for x in dn if x not in ('__pycache__', '_build'))
            for f in sorted(fn):
                if f.endswith(('.cpp', '.h', '.py', '.txt', '.c')):
                    p = os.path.join(dp, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in (os.path.join(VERIF, 'harness', 'vdump.cpp'), os.path.join(VERIF, 'spec', 'Series.java'), os.path.abspath(__file__)):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build(verbose=False):
    out = os.path.join(VERIF, '.build', tree_hash())
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    olds = sorted((os.path.join(VERIF, '.build', d) for d in os.listdir(os.path.join(VERIF, '.build'))), key=os.path.getmtime)
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, '.build'))
    sym = os.path.join(REPO, 'symbolics')
    pyinc = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], capture_output=True, text=True).stdout.strip()
    inc = ['-I' + os.path.join(sym, x) for x in ('include', 'functions/include', 'graph/include', 'printer/include', 'writer/include', 'wrapper/include', 'writer/lib')] + ['-I' + pyinc]
    flags = ['-fPIC', '-w', '-fpermissive', '-O0']
    obj = os.path.join(tmp, 'obj'); os.makedirs(obj)
    pch = os.path.join(obj, 'pch.h')
    open(pch, 'w').write(''.join('#include <%s>\n' % x for x in PCH))
    run(['g++'] + flags + inc + ['-x', 'c++-header', pch, '-o', pch + '.gch'])
    srcs = sources() + [os.path.join(VERIF, 'harness', 'vdump.cpp')]

    def comp(a):
        i, s = a
        o = os.path.join(obj, '%d.o' % i)
        run(['g++', '-include', pch] + flags + inc + ['-c', s, '-o', o])
        return o
    def java():
        cls = os.path.join(tmp, 'classes'); os.makedirs(cls)
        run(['javac', '-cp', TLA, '-d', cls, os.path.join(VERIF, 'spec', 'Series.java')])
    with ThreadPoolExecutor(8) as ex:
        fj = ex.submit(java)
        objs = list(ex.map(comp, enumerate(srcs)))
        fj.result()
    shutil.copytree(os.path.join(REPO, 'pymbs'), os.path.join(tmp, 'pymbs'), ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    run(['g++', '-shared', '-o', os.path.join(tmp, 'pymbs', 'symbolics', 'symbolics.so')] + objs)
    shutil.rmtree(obj)
    open(os.path.join(tmp, 'ok'), 'w').write('ok')
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
