"""Builds random models with the real code, has the program writers write them
and runs the programs; one JSON line per model (see ProgSem.tla).

  wworker.py gen LANG SEED FIRST COUNT OUT PROGRESS
  wworker.py list JSON FIRST COUNT OUT PROGRESS      JSON: [[lang, seed, n], ...]
"""
import contextlib, hashlib, importlib, io, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile
import numpy
import vv
from vv import S, halves
from eqworker import Gen, Sys, KIND, konst, components, value, el, shp_of
import langparse

NOIF = ('m', 'f90')
CTRL = ('py', 'c', 'cw', 'sf')
BASE = dict(cw='c', fw='f90', sf='c')
OPTS = dict(cw=dict(pymbs_wrapper=True), fw=dict(pymbs_wrapper=True), sf=dict(sfunction=True))
WORK = tempfile.mkdtemp(dir=os.getcwd())


class PGen(Gen):
    big = False
    def __init__(self, rnd, lang):
        Gen.__init__(self, rnd)
        self.lang = lang

    def e(self, sh, d):
        # constructs the language does not have are avoided
        for _ in range(50):
            x = Gen.e(self, sh, d)
            t = json.dumps(vv.dump(x))
            if self.lang in NOIF and '"if"' in t:
                continue
            if self.lang == 'c' and ('"solve"' in t or '"inv"' in t):
                continue
            return x
        return self.leaf(sh)


def order(states):
    """the documented order of the states in the state vector"""
    return sorted(states, key=lambda n: (shp_of(states[n])[0], shp_of(states[n])[1:], n))


def regular(g, n, d, rnd):
    """a regular matrix, such that a solver has to pivot"""
    if rnd.random() < .5:
        return g.e((n, n), d) + vv.perm(rnd, n, 9)
    p = list(range(n))
    if rnd.random() < .7:
        rnd.shuffle(p)
    m = [[g.e((), 1) if rnd.random() < .4 else 0 for _ in range(n)] for _ in range(n)]
    for i in range(n):
        m[i][p[i]] = rnd.choice([-1, 1]) * rnd.randint(3, 9) if rnd.random() < .5 else g.leaf(()) + 6
    return S.Matrix(m)


def model(rnd, lang, log):
    ctrls = lang in CTRL
    lang = BASE.get(lang, lang)
    s = Sys(log, False)
    g = PGen(rnd, lang)
    t = s.sym['time']
    states, pure, full = {}, [], []
    names = ['v%d' % i for i in range(30)] if rnd.random() < .7 else ['alpha', 'beta', 'omega_1', 'F_n', 'tq', 'mass', 'leng', 'r_2', 'phi', 'psi', 'v_b1', 'w_b1', 'T_a', 'f0', 'g0', 'h1', 'k_1', 'kappa', 'xq', 'yq', 'zq', 'p_1', 'p_2', 'u1', 'u2', 'd_q', 'qq', 'm12', 'n_1', 'ell']
    names = iter(names)
    q = None
    vecs = [(), (2,), (3,), (1,)] if lang != 'c' else [(), (2,), (3,)]
    if rnd.random() < .6:
        q = rnd.choice([(), (2,), (3,), (4,), (5,) if rnd.random() < .3 else (2,), (7,) if rnd.random() < .2 else (3,)])
        states['q'] = states['qd'] = q
    for _ in range(rnd.choice([0, 0, 1, 2]) if q is not None else rnd.choice([1, 1, 2, 3])):
        states[next(names)] = rnd.choice([(), (), (2,), (3,)])
    decls = [(n, sh, 1, konst(g, sh, rnd) if rnd.random() < .8 else None) for n, sh in states.items()]
    given = []
    kinds = {}
    def more(role, shapes, k):
        for _ in range(k):
            n, sh = next(names), rnd.choice(shapes)
            init = konst(g, sh, rnd) if role == 'input' and rnd.random() < .6 else None
            decls.append((n, sh, KIND[role], init))
            kinds.setdefault(role, []).append((n, sh))
    SH = [(), (), (), (2,), (3,), (2, 2), (3, 3), (2, 3)]
    SH = SH * 5 + [(4,), (6,), (4, 4), (3, 2), (5,), (1, 3) if lang not in ('c', 'f90') else (4,)]
    more('param', SH, rnd.choice([0, 1, 2, 3]))
    more('const', SH[:5] + [(6,)] * (rnd.random() < .1), rnd.choice([0, 0, 1]))
    more('input', [(), (), (3,), (2,)], rnd.choice([0, 0, 1, 2]))
    if ctrls:
        more('ctrl', [(), (), (3,)], rnd.choice([0, 0, 0, 1, 2]))
    more('var', SH, rnd.randint(1, 4))
    more('sensor', SH, rnd.choice([0, 1, 1, 2, 3]))
    if lang not in ('m',):
        more('graphics', [(), (3,), (3, 3), (3,)], rnd.choice([0, 0, 1, 2]))
    more('user', [(), (3,)], rnd.choice([0, 0, 0, 1]))
    rnd.shuffle(decls)
    for n, sh, k, init in decls:
        ctrl = (n, sh) in kinds.get('ctrl', [])
        s.var(n, sh, k, init, 'w_ctl:f_' + n if ctrl else 'about ' + n if rnd.random() < .2 else None)
    ob = lambda l: [(s.sym[n], sh) for n, sh in l]
    eqs, par, cst = [], [], []
    for n, sh in kinds.get('param', []) + kinds.get('const', []):
        rhs = konst(g, sh, rnd)
        const = (n, sh) in kinds.get('const', [])
        if par and rnd.random() < .3 and not const:
            gp = PGen(rnd, lang); gp.av = list(par)
            rhs = gp.e(sh, 2)
        eqs.append((s.sym[n], rhs))
        if not const:
            par.append((s.sym[n], sh))
        else:
            cst.append((s.sym[n], sh))
    par = par + cst
    pure = par + ob(states.items()) * 2
    full = pure + [(t, ())] + ob(kinds.get('input', []))
    for n, sh in kinds.get('user', []):     # formulas in states and parameters
        g.av = list(pure)
        eqs.append((s.sym[n], g.e(sh, 2)))
        pure.append((s.sym[n], sh)); full.append((s.sym[n], sh))
    senses = list(full)                     # what sensors may use
    full = full + ob(kinds.get('ctrl', [])) * 2
    for n, sh in kinds.get('var', []):
        x = rnd.random()
        src = pure if x < .35 else senses if x < .65 else full
        g.av = list(src)
        y = rnd.random()
        same = [o for o, r in src if r == sh]
        if same and y < .1:
            rhs = rnd.choice(same)
        elif y < .16:
            rhs = konst(g, sh, rnd)
        else:
            rhs = g.e(sh, rnd.randint(1, 3))
        if len(sh) == 1 and sh[0] > 1 and lang == 'c' and rnd.random() < .15:
            rhs = S.solve(regular(g, sh[0], 1, rnd), g.e(sh, 1))
        if sh != () and rnd.random() < .12:
            eqs += components(s, g, n, sh, rnd)
        else:
            eqs.append((s.sym[n], rhs))
        if src is pure:
            pure.append((s.sym[n], sh))
        if src is not full:
            senses.append((s.sym[n], sh))
        full.append((s.sym[n], sh))
    if rnd.random() < .3:                   # several scalars at once
        k = rnd.choice([2, 3])
        nms = ['l%d' % i for i in range(k)]
        for o in nms:
            s.var(o, (), 1)
        g.av = list(senses)
        eqs.append(([s.sym[o] for o in nms], g.e((k,), 2) if rnd.random() < .6 else [g.e((), 2) for _ in range(k)]))
        senses += [(s.sym[o], ()) for o in nms]; full += [(s.sym[o], ()) for o in nms]
    g.av = full
    for n, sh in states.items():
        if n == 'q':
            rhs = s.sym['qd'] if rnd.random() < .7 else g.e(sh, 2)
        elif n == 'qd' and sh != () and rnd.random() < .6:
            rhs = S.solve(regular(g, sh[0], 2, rnd), g.e(sh, 2))
            if rnd.random() < .5:           # as the generators write it
                s.var('qdd', sh, 1)
                eqs.append((s.sym['qdd'], rhs))
                rhs = s.sym['qdd']
                if not kinds.get('ctrl'):
                    senses.append((rhs, sh))
        else:
            rhs = g.e(sh, rnd.randint(1, 3))
        eqs.append((S.der(s.sym[n]), rhs))
    moving = ob(kinds.get('input', [])) if lang == 'py' else []        # only Python hands inputs to the graphics
    for role, src in (('sensor', senses), ('graphics', pure + moving)):
        for n, sh in kinds.get(role, []):
            g.av = list(src)
            same = [o for o, r in src if r == sh]
            eqs.append((s.sym[n], rnd.choice(same) if same and rnd.random() < .3 else g.e(sh, rnd.randint(1, 3))))
    random.Random(rnd.random()).shuffle(eqs)
    for l, r in eqs:
        s.eq(l, r, wrapper=not any(vv.dump(x)['t'] == 'elem' for x in (l if isinstance(l, list) else [l])))
    s.states = order(states)
    s.kinds = kinds
    return s


# ------------------------------------------------------------------ observations
def obs(v):
    """[finite?, high, low] per component, row by row"""
    a = numpy.asarray(v, dtype=float)
    return [[1] + halves(float(x)) if math.isfinite(float(x)) else [0, 0, 0] for x in a.ravel()]


def unhex(h):
    v = numpy.array([int(h, 16)], dtype=numpy.uint64).view(numpy.float64)[0]
    return float(v)


class Fails(Exception):
    pass


def layout(s, env):
    y = []
    for n in s.states:
        y += [v[0] for v in env[n]]
    return numpy.array(y)


def col(sh, vals):
    if sh == ():
        return vals[0]
    return numpy.matrix(vals).reshape(sh[0], sh[1] if len(sh) == 2 else 1)


def flat(sh, vals):
    """scalars as floats, vectors and matrices as arrays"""
    return vals[0] if sh == () else numpy.array(vals).reshape(sh)


def run_py(s, name, d, env, rnd):
    """[(inputs, function, outputs)]"""
    time, y = env['time'][0][0], layout(s, env)
    sys.path.insert(0, d)
    stub = type(sys)('w_ctl')
    seen = []
    for n, sh in s.kinds.get('ctrl', []):
        def f(t, yy, sensors, n=n, sh=sh):
            if t != time or list(yy) != list(y):
                raise Fails('controller called with other time or state')
            seen.append(dict(sensors))
            return col(sh, [v[0] for v in env[n]])
        setattr(stub, 'f_' + n, f)
    sys.modules['w_ctl'] = stub
    mods, runs = {}, []
    inputs = s.kinds.get('input', [])
    try:
        for fn in ('der_state', 'sensors', 'visual'):
            if os.path.exists('%s/%s_%s.py' % (d, name, fn)):
                mods[fn] = importlib.import_module(name + '_' + fn)
        for rd in ('init', 'env'):
            if rd == 'env':
                if not inputs:
                    break
                for m in mods.values():
                    f = getattr(m, name + '_setInputs', None)
                    if f:
                        f({n: col(sh, [v[0] for v in env[n]]) for n, sh in inputs})
            del seen[:]
            yy = y.copy()
            r = mods['der_state'].__dict__[name + '_der_state'](time, yy)
            if list(yy) != list(y):
                raise Fails('the state vector is changed')
            runs.append(dict(inp=rd, fn='der', d=obs(r)))
            for x in seen:
                runs.append(dict(inp=rd, fn='ctrl', out=[dict(n=k, d=obs(v)) for k, v in x.items()]))
            if 'sensors' in mods:
                r = mods['sensors'].__dict__[name + '_sensors'](time, y.copy())
                runs.append(dict(inp=rd, fn='sensors', out=[dict(n=k, d=obs(v)) for k, v in r.items()]))
            if 'visual' in mods:
                r = mods['visual'].__dict__[name + '_visual'](y.copy())
                runs.append(dict(inp=rd, fn='visual', out=[dict(n=k, d=obs(v)) for k, v in r.items()]))
        return runs
    finally:
        sys.path.remove(d)
        for fn in mods:
            sys.modules.pop(name + '_' + fn, None)


def sh2(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=50, **kw)
    return r.returncode, r.stdout.decode(errors='replace')


def hexlist(vals):
    return ', '.join(float(x).hex() for x in vals)


def nocompile(o):
    if re.search(r"error: .(inf|nan). undeclared", o):      # a constant of the model is undefined (the specification checks that)
        raise ZeroDivisionError(o[-500:])
    raise Fails('does not compile: ' + o[-500:])


def run_c(s, name, d, env, rnd):
    runs = []
    for fn in ('der_state', 'sensors', 'visual'):
        src = '%s/%s_%s.c' % (d, name, fn)
        if not os.path.exists(src):
            continue
        text = open(src, encoding='latin1').read()
        m = re.search(r'int\s+%s_%s\s*\(([^)]*)\)' % (name, fn), text)
        if not m:
            raise Fails('no function %s_%s' % (name, fn))
        ny = len(layout(s, env))
        decl, args, outs = [], [], []
        for p in [x.strip() for x in m.group(1).split(',')]:
            q = re.match(r'double\s*(\*?)\s*(\w+)\s*((?:\[\d+\])*)$', p)
            if not q:
                raise Fails('parameter ' + p)
            n = q.group(2)
            if n == 'time':
                args.append(float(env['time'][0][0]).hex())
            elif n == 'y':
                decl.append('double y[] = {%s};' % hexlist(layout(s, env))); args.append('y')
            elif n == 'yd':
                decl.append('double yd[%d];' % ny); args.append('yd'); outs.append(('', 'yd', ny))
            elif n in [k for k, _ in s.kinds.get('input', []) + s.kinds.get('ctrl', [])]:
                v = [x[0] for x in env[n]]
                if q.group(3):
                    decl.append('double %s%s = {%s};' % (n, q.group(3), hexlist(v)))
                else:
                    decl.append('double %s = %s;' % (n, hexlist(v)))
                args.append(n)
            else:
                real = n[:-4] if q.group(1) and n.endswith('_out') else n
                k = el(s.shape[real])
                if q.group(3):
                    decl.append('double %s%s;' % (n, q.group(3))); args.append(n); outs.append((real, n, k))
                elif q.group(1):
                    decl.append('double %s[1];' % n); args.append(n); outs.append((real, n, k))
                else:
                    raise Fails('the value of %s cannot be returned' % n)
        main = '#include "%s_%s.c"\n#include <string.h>\nint main(){\n%s\n%s_%s(%s);\n' % (name, fn, '\n'.join(decl), name, fn, ', '.join(args))
        for k, (real, n, size) in enumerate(outs):
            main += '{int i_; for(i_=0;i_<%d;i_++){unsigned long long u_; memcpy(&u_, ((char*)%s)+8*i_, 8); printf("%d %%016llx\\n", u_);}}\n' % (size, n, k)
        main += 'return 0;}\n'
        open(d + '/main.c', 'w').write(main)
        rc, o = sh2(['gcc', '-w', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D__declspec(x)=', '-o', 'main.exe', 'main.c', '-lm'] if os.environ.get('W_SAN') else
                    ['gcc', '-w', '-O0', '-D__declspec(x)=', '-o', 'main.exe', 'main.c', '-lm'], cwd=d)
        if rc:
            nocompile(o)
        rc, o = sh2(['./main.exe'], cwd=d)
        if rc:
            raise Fails('exit %d: %s' % (rc, o[-500:]))
        runs += collect(o, outs, fn)
    return runs


def run_sf(s, name, d, env, rnd):
    """the body of an S-function, included where its inputs and outputs are declared"""
    y = layout(s, env)
    dim = lambda sh: ''.join('[%d]' % k for k in sh)
    decl = ['double time = %s;' % float(env['time'][0][0]).hex(), 'double y[] = {%s};' % hexlist(y), 'double yd[%d];' % len(y)]
    for n, sh in s.kinds.get('input', []) + s.kinds.get('ctrl', []):
        v = hexlist([x[0] for x in env[n]])
        decl.append('double %s%s = %s;' % (n, dim(sh), '{%s}' % v if sh else v))
    outs = dict(der=[('', 'yd', len(y))])
    for fn, kind in (('sensors', 'sensor'), ('visual', 'graphics')):
        for n, sh in s.kinds.get(kind, []):
            decl.append('double %s%s;' % (n, dim(sh)))
            outs.setdefault(fn, []).append((n, n if sh else '&' + n, el(sh)))
    main = '#include <math.h>\n#include <stdio.h>\n#include <string.h>\n#include "functionmodule.c"\nint main(){\n%s\n{\n#include "%s.c"\n}\n' % ('\n'.join(decl), name)
    k = 0
    for fn in outs:
        for real, n, size in outs[fn]:
            main += '{int i_; for(i_=0;i_<%d;i_++){unsigned long long u_; memcpy(&u_, ((char*)(%s))+8*i_, 8); printf("%d %%016llx\\n", u_);}}\n' % (size, n, k)
            k += 1
    open(d + '/main.c', 'w').write(main + 'return 0;}\n')
    rc, o = sh2(['gcc', '-w', '-O0', '-o', 'main.exe', 'main.c', '-lm'], cwd=d)
    if rc:
        nocompile(o)
    rc, o = sh2(['./main.exe'], cwd=d)
    if rc:
        raise Fails('exit %d: %s' % (rc, o[-500:]))
    vals = {}
    for l in o.splitlines():
        i, h = l.split()
        vals.setdefault(int(i), []).append(unhex(h))
    runs = [dict(inp='env', fn='der', d=obs(vals.get(0, [])))]
    k = 1
    for fn in ('sensors', 'visual'):
        if fn in outs:
            runs.append(dict(inp='env', fn=fn, out=[dict(n=real, d=obs(vals.get(k + i, []))) for i, (real, n, size) in enumerate(outs[fn])]))
            k += len(outs[fn])
    return runs


def run_cw(s, name, d, env, rnd, ext='c', suffix='_CWrapper'):
    """the program as the simulation runs it: compiled by the tool, called by the written wrappers"""
    time, y = env['time'][0][0], layout(s, env)
    from pymbs.ui.compile import compileC, compileF90
    compile_ = dict(c=compileC, f90=compileF90)[ext]
    for fn in ('der_state', 'sensors', 'visual'):
        if os.path.exists('%s/%s_%s.%s' % (d, name, fn, ext)):
            with contextlib.redirect_stdout(io.StringIO()):
                compile_('%s_%s' % (name, fn), d)
    sys.path.insert(0, d)
    stub = type(sys)('w_ctl')
    seen = []
    for n, sh in s.kinds.get('ctrl', []):
        def f(t, yy, sensors, n=n, sh=sh):
            if t != time or list(yy) != list(y):
                raise Fails('controller called with other time or state')
            seen.append({k: numpy.array(v) for k, v in sensors.items()})
            return flat(sh, [v[0] for v in env[n]])
        setattr(stub, 'f_' + n, f)
    sys.modules['w_ctl'] = stub
    mods, runs = {}, []
    inputs = s.kinds.get('input', [])
    try:
        for fn in ('der_state', 'sensors', 'visual'):
            if os.path.exists('%s/%s_%s.%s' % (d, name, fn, ext)):
                mods[fn] = importlib.import_module(name + '_' + fn + suffix)
        for rd in ('init', 'env'):
            if rd == 'env':
                if not inputs:
                    break
                for m in mods.values():
                    f = getattr(m, 'setInputs', None)
                    if f:
                        f({n: flat(sh, [v[0] for v in env[n]]) for n, sh in inputs})
            del seen[:]
            yy = y.copy()
            r = mods['der_state'].ode_int(time, yy)
            if list(yy) != list(y):
                raise Fails('the state vector is changed')
            runs.append(dict(inp=rd, fn='der', d=obs(r)))
            for x in seen:
                runs.append(dict(inp=rd, fn='ctrl', out=[dict(n=k, d=obs(v)) for k, v in x.items()]))
            if 'sensors' in mods:
                r = mods['sensors'].graphSensors(time, list(y))
                runs.append(dict(inp=rd, fn='sensors', out=[dict(n=k, d=obs(v)) for k, v in r.items()]))
            if 'visual' in mods:
                r = mods['visual'].graphVisualSensors(list(y))
                runs.append(dict(inp=rd, fn='visual', out=[dict(n=k, d=obs(v)) for k, v in r.items()]))
        return runs
    finally:
        sys.path.remove(d)
        for fn in mods:
            sys.modules.pop(name + '_' + fn + suffix, None)


def run_fw(s, name, d, env, rnd):
    return run_cw(s, name, d, env, rnd, 'f90', '_F90Wrapper')


def collect(o, outs, fn):
    vals = {}
    for l in o.splitlines():
        k, h = l.split()
        vals.setdefault(int(k), []).append(unhex(h))
    if fn == 'der_state':
        return [dict(inp='env', fn='der', d=obs(vals.get(0, [])))]
    return [dict(inp='env', fn=fn, out=[dict(n=real, d=obs(vals.get(k, []))) for k, (real, n, size) in enumerate(outs)])]


FMOD = {}


def fmodule(d):
    """compiles the support module once per text"""
    src = open(d + '/functionmodule.f90', encoding='latin1').read()
    h = hashlib.sha1('\n'.join(src.splitlines()[1:]).encode()).hexdigest()
    if h not in FMOD:
        m = os.path.join(WORK, 'fm-' + h)
        os.makedirs(m)
        rc, o = sh2(['gfortran', '-w', '-O0', '-c', '-ffree-line-length-none', '-J', m, '-o', m + '/functionmodule.o', d + '/functionmodule.f90'])
        FMOD[h] = m if rc == 0 else Fails('support module does not compile: ' + o[-500:])
    if isinstance(FMOD[h], Fails):
        raise FMOD[h]
    return FMOD[h]


def f_num(x):
    h = numpy.array([float(x)]).view(numpy.int64)[0]
    return 'transfer(%d_8, 1d0)' % h if h > -2**63 else '-0d0'


def run_f90(s, name, d, env, rnd):
    runs = []
    mod = fmodule(d)
    for fn in ('der_state', 'sensors', 'visual'):
        src = '%s/%s_%s.f90' % (d, name, fn)
        if not os.path.exists(src):
            continue
        text = open(src, encoding='latin1').read()
        m = re.search(r'subroutine\s+%s_%s\s*\(([^)]*)\)' % (name, fn), text)
        if not m:
            raise Fails('no subroutine %s_%s' % (name, fn))
        ny = len(layout(s, env))
        decl, init, args, outs = [], [], [], []
        for n in [x.strip() for x in m.group(1).replace('&', ' ').split(',')]:
            args.append('a_' + n)
            if n == 'time':
                decl.append('double precision :: a_time'); init.append('a_time = ' + f_num(env['time'][0][0])); continue
            if n in ('y', 'yd'):
                decl.append('double precision, dimension(%d,1) :: a_%s' % (ny, n))
                if n == 'y':
                    init += ['a_y(%d,1) = %s' % (i + 1, f_num(v)) for i, v in enumerate(layout(s, env))]
                else:
                    outs.append(('', n, ny, 1))
                continue
            sh = s.shape[n]
            r, c = (1, 1) if sh == () else (sh[0], sh[1] if len(sh) == 2 else 1)
            decl.append('double precision%s :: a_%s' % ('' if sh == () else ', dimension(%d,%d)' % (r, c), n))
            if n in [k for k, _ in s.kinds.get('input', [])]:
                for p, v in enumerate(env[n]):
                    init.append('a_%s%s = %s' % (n, '' if sh == () else '(%d,%d)' % (p // c + 1, p % c + 1), f_num(v[0])))
            else:
                outs.append((n, n, 0 if sh == () else r, c))
        main = 'program main\nimplicit none\ninteger :: i, j\n' + '\n'.join(decl + init) + '\ncall %s_%s(%s)\n' % (name, fn, ', &\n'.join(args))
        for k, (real, n, r, c) in enumerate(outs):
            if r == 0:
                main += 'write(*,"(I0,1X,Z16.16)") %d, transfer(a_%s, 1_8)\n' % (k, n)
            else:
                main += 'do i=1,%d\ndo j=1,%d\nwrite(*,"(I0,1X,Z16.16)") %d, transfer(a_%s(i,j), 1_8)\nend do\nend do\n' % (r, c, k, n)
        open(d + '/main.f90', 'w').write(main + 'end program\n')
        rc, o = sh2(['gfortran', '-w', '-O0', '-fcheck=bounds', '-ffree-line-length-none', '-I', mod, '-J', d, '-o', 'main.exe', 'main.f90', os.path.basename(src), mod + '/functionmodule.o'], cwd=d)
        if rc:
            raise Fails('does not compile: ' + o[-600:])
        rc, o = sh2(['./main.exe'], cwd=d)
        if rc:
            raise Fails('exit %d: %s' % (rc, o[-500:]))
        runs += collect(o, [(a, b, 0) for a, b, _, _ in outs], fn)
    return runs


RUN = dict(py=run_py, c=run_c, f90=run_f90, cw=run_cw, fw=run_fw, sf=run_sf)


def files(d, ext):
    return {f: open(os.path.join(d, f), encoding='latin1').read() for f in sorted(os.listdir(d)) if f.endswith(ext)}


def case(lang, seed, n):
    seedstr = 'w/%s/%d/%d' % (lang, seed, n)
    s = model(random.Random(seedstr), lang, True)
    rnd = random.Random('env/' + seedstr)
    vals = {k: [[value(rnd), value(rnd)] for _ in range(el(sh))] for k, sh in s.shape.items()}
    c = dict(steps=s.steps, env={k: [[halves(x[0]), halves(x[1])] for x in v] for k, v in vals.items()}, order=s.states, lang=lang, runs=[], res='ok', msg='',
             sensors=sorted(k for k, _ in s.kinds.get('sensor', [])), visual=sorted(k for k, _ in s.kinds.get('graphics', [])), opt=rnd.random() < .6)
    if any(x['res'] != 'ok' for x in s.steps):
        c['res'] = 'refused'
        return c
    d = tempfile.mkdtemp(dir=WORK)
    name = 'm%d_%d' % (os.getpid(), n)
    try:
        s.g.buildGraph(c['opt'])
        with capture() as err:
            s.g.writeCode(BASE.get(lang, lang), name, d, **OPTS.get(lang, {}))
        c['warn'] = err.text()
        if lang in RUN:
            c['runs'] = RUN[lang](s, name, d, vals, rnd)
        else:
            c['prog'] = langparse.program(files(d, '.' + lang), name, lang)
    except Exception as ex:
        c['res'] = 'domain' if isinstance(ex, (ZeroDivisionError, numpy.linalg.LinAlgError)) else 'err'
        c['msg'] = (type(ex).__name__ + ': ' + str(ex))[-900:].replace(d, '')
    if c['res'] != 'ok' or os.environ.get('W_KEEP'):
        c['files'] = {k.replace(name, 'm'): v for k, v in (dict(files(d, '.' + BASE[lang]), **files(d, '.py')) if lang in BASE else files(d, '.' + lang)).items() if not k.startswith('functionmodule')}
    shutil.rmtree(d, ignore_errors=True)
    return c


class capture(object):
    """what the extension module writes to standard error"""

    def __enter__(self):
        sys.stderr.flush()
        self.f = tempfile.TemporaryFile(dir=WORK)
        self.old = os.dup(2)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        os.dup2(self.old, 2)
        os.close(self.old)

    def text(self):
        self.f.seek(0)
        t = self.f.read().decode(errors='replace')
        return [l for l in t.splitlines() if 'error' in l.lower()]


def main():
    mode = sys.argv[1]
    if mode == 'gen':
        lang, seed, first, count, out, prog = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        todo = [(lang, seed, n) for n in range(first, first + count)]
    else:
        first, count, out, prog = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
        todo = [tuple(x) for x in json.loads(sys.argv[2])][first:first + count]
    try:
        with open(out, 'a') as f:
            for k, (lang, seed, n) in enumerate(todo):
                i = '%s-%d-%d' % (lang, seed, n)
                with open(prog, 'w') as p:
                    p.write(json.dumps(dict(id=i, n=first + k, key=[lang, seed, n], lang=lang, steps=[], env={}, order=[], runs=[], sensors=[], visual=[])))
                signal.alarm(400 if lang == 'fw' else 120)
                c = case(lang, seed, n)
                signal.alarm(0)
                c.update(id=i, n=first + k, key=[lang, seed, n])
                f.write(json.dumps(c) + '\n')
                f.flush()
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
