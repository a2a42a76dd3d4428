"""Prints random expressions with the real printers, one JSON line per expression
(see PrintSem.tla).  For Python the text is also evaluated here.

  pworker.py gen LANG SEED FIRST COUNT OUT PROGRESS
  pworker.py list JSON FIRST COUNT OUT PROGRESS      JSON: [[lang, seed, n], ...]
"""
import json, random, signal, sys
import numpy
import vv
from vv import S, halves

from ptable import SYMS, DERS
LOGIC = ('m',)          # truth values are numbers
NOIF = ('m', 'f90')               # no conditional expression in this language


def full(sh):
    return [0, 1, 1] if sh == () else [1, sh[0], 1] if len(sh) == 1 else [1, 1, sh[1]] if sh[0] == 1 and sh[1] > 1 else [2, sh[0], sh[1]]


class PGen(object):
    def __init__(self, rnd, lang):
        self.r = rnd
        self.lang = lang
        self.names = {}
        self.sym = {}
        for n, sh in SYMS:
            fs = full(sh)
            self.sym[n] = S.Symbol(n, *([] if sh == () else [sh] if fs[0] != 1 or fs[1] > 1 else [tuple(fs)]))
            self.names.setdefault(sh, []).append(n)

    def num(self):
        r = self.r
        x = r.random()
        if x < .5:
            return r.choice([0, 1, 2, 3, -1, -2, 10, -7])
        if x < .85:
            return r.choice([0.5, -0.5, 1.5, 0.1, -2.25, 3.0, 1e-3, 2.0, -1.0])
        return r.choice([1e-7, 123456.75, 1e10, -1e10, 0.1 + 0.2, 1 / 3.0, 2.0 / 3, -1 / 7.0, 1e20, 1e-12, 123456789, -2147483648, 2147483647, 1e6, 1e16, 12345678.9])

    def leaf(self, sh):
        r = self.r
        x = r.random()
        if sh in self.names and x < .62:
            n = r.choice(self.names[sh])
            if n in DERS and r.random() < .25:
                return S.der(self.sym[n])
            return self.sym[n]
        if sh == ():
            if x < .75:
                n, q = r.choice([p for p in SYMS if len(p[1]) > 0])
                o = self.sym[n]
                if n in DERS and r.random() < .2:
                    o = S.der(o)
                i, j = (r.randrange(q[0]), r.randrange(q[1]) if len(q) == 2 else 0)
                return S.element(o, i, j)
            return S.Number(self.num())
        if x < .7:
            return S.zeros(sh if len(sh) == 1 or sh[0] > 1 else tuple(full(sh)))
        if len(sh) == 2 and sh[0] == sh[1] and sh[0] > 1 and x < .78:
            return S.eye(sh)
        return self.mat(sh, 0)

    def mat(self, sh, d):
        if len(sh) == 1:
            return S.Matrix([self.e((), d) for _ in range(sh[0])])
        return S.Matrix([[self.e((), d) for _ in range(sh[1])] for _ in range(sh[0])])

    def cond(self, d):
        r = self.r
        f = r.choice([S.Less, S.Greater, S.Less, S.Greater, S.Equal])
        return f(self.e((), d), self.e((), d))

    def trig(self, sh, d):
        r = self.r
        f = r.choice([S.sin, S.cos, S.tan, S.atan, S.sin, S.cos, abs, abs, S.sign, S.asin, S.acos])
        x = self.e(sh, d)
        if vv.dump(x)['t'] in ('less', 'greater', 'equal', 'bool'):
            x = x + self.leaf(())    # functions of truth values are left out
        if f in (S.asin, S.acos):
            x = S.sin(x) * r.choice([0.5, 0.9, -0.3]) if r.random() < .8 else x
        return f(x)

    def e(self, sh, d):
        r = self.r
        if d <= 0 or r.random() < .1:
            return self.leaf(sh)
        k = r.random()
        E = self.e
        if k < .18:
            return E(sh, d - 1) + E(sh, d - 1)
        if k < .28:
            return E(sh, d - 1) - E(sh, d - 1)
        if k < .34:
            return -E(sh, d - 1)
        if k < .44:
            return E((), d - 1) * E(sh, d - 1)
        if k < .47:
            return E(sh, d - 1) * E((), d - 1)
        if k < .52:
            return self.trig(sh, d - 1)
        if k < .54:
            return E(sh, d - 1) / E((), d - 1)
        if k < .56 and self.lang not in NOIF:
            return S.If(self.cond(d - 1), E(sh, d - 1), E(sh, d - 1))
        if k < .58 and self.lang != 'mo':
            return E((), d - 1) + E(sh, d - 1)
        if self.lang == 'c' and k > .74:
            return self.e((), d)     # element by element
        if sh == ():
            if k < .66:
                return E((), d - 1) ** r.choice([2, 3, -1, -2, 0.5, 4, 2.0, -0.5, 1.5])
            if k < .68:
                b = E((), d - 1)
                return (abs(b) + 1) ** r.choice([0.5, -0.5, 1.5])
            if k < .72:
                return S.atan2(E((), d - 1), E((), d - 1))
            if k < .74 and self.lang in LOGIC:
                return self.cond(d - 1)
            if k < .8:
                n = r.choice([2, 3])
                x = S.transpose(E((n,), d - 1)) * E((n,), d - 1)
                return S.scalar(x) if r.random() < .4 else x
            if k < .84:
                n = r.choice([2, 3])
                return E((1, n), d - 1) * E((n,), d - 1)
            if k < .94:
                q = r.choice([(2,), (3,), (1, 3), (2, 2), (3, 3), (2, 3)])
                o = E(q, d - 1)
                return S.element(o, r.randrange(q[0]), r.randrange(q[1]) if len(q) == 2 else 0)
            if k < .96:
                return S.scalar(E(r.choice([(1, 1), (1,), ()]), d - 1))
            return E((), d - 1) * E((), d - 1) * E((), d - 1)
        if len(sh) == 1:
            n = sh[0]
            if k < .74:
                m = r.choice([n, 2, 3])
                return E((n, m), d - 1) * E((m,), d - 1)
            if k < .82 and n > 1:
                return S.transpose(E((1, n), d - 1))
            if k < .9 and n > 1:
                return S.solve(E((n, n), d - 1) + vv.perm(r, n, 7), E(sh, d - 1))
            return self.mat(sh, d - 1)
        n, m = sh
        if n == 1:
            if k < .8:
                return S.transpose(E((m,), d - 1)) if m > 1 else self.mat(sh, d - 1)
            if k < .9 and m > 1:
                return E((1, 3), d - 1) * E((3, m), d - 1)
            return self.mat(sh, d - 1)
        if k < .68:
            return S.transpose(E((m, n), d - 1))
        if n == m:
            if k < .73 and n == 3:
                return S.skew(E((3,), d - 1))
            if k < .78:
                return E(sh, d - 1) ** r.choice([2, 3, 2, 0, 1])
            if k < .81:
                return S.inv(E(sh, d - 1) + vv.perm(r, n, 6))
            if k < .84:
                return S.outer(E((n,), d - 1), E((n,), d - 1))
            if k < .87:
                return (E(sh, d - 1) + vv.perm(r, n, 6)) ** -1 if self.lang != 'mo' else E(sh, d - 1)
        if k < .94:
            p = r.choice([2, 3])
            return E((n, p), d - 1) * E((p, m), d - 1)
        return self.mat(sh, d - 1)


def value(rnd):
    return round(rnd.choice([rnd.uniform(-2, 2), rnd.uniform(.2, 1.4), rnd.uniform(-1, 1)]), 6) if rnd.random() < .93 else 0.0


def el(sh):
    n = 1
    for k in sh:
        n *= k
    return n


SHAPES = {'c': [()], 'py': [(), (), (3,), (2,), (1, 3), (2, 2), (3, 3), (2, 3)]}


def bindings(env):
    """name in the text -> (shape, values)"""
    b = {}
    for n, sh in SYMS:
        b[n] = (sh, [x[0] for x in env[n]])
    for n in DERS:
        sh = dict(SYMS)[n]
        b['der_' + n] = (sh, [x[1] for x in env[n]])
    return b


def py_env(env):
    """an environment as in the generated Python modules"""
    e = {}
    from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix, sign
    from numpy import arctan2 as atan2, arctan as atan, arcsin as asin, arccos as acos
    e.update(linalg=linalg, vstack=vstack, asarray=asarray, sin=sin, cos=cos, tan=tan, pi=pi, sqrt=sqrt, zeros=zeros, bmat=bmat, matrix=matrix, sign=sign,
             atan2=atan2, atan=atan, asin=asin, acos=acos)
    for n, (sh, v) in bindings(env).items():
        if sh == ():
            e[n] = v[0]
        else:
            e[n] = matrix(numpy.array(v).reshape(sh if len(sh) == 2 else (sh[0], 1)))
    return e


def run_py(text, env):
    import warnings
    warnings.simplefilter('ignore')
    try:
        v = eval(text, py_env(env))
    except Exception as ex:
        return dict(res='err', msg='%s: %s' % (type(ex).__name__, str(ex)[:150]))
    if isinstance(v, complex):
        return dict(res='err', msg='complex')
    try:
        a = numpy.asarray(v, dtype=float)
    except Exception as ex:
        return dict(res='err', msg='%s: %s' % (type(ex).__name__, str(ex)[:150]))
    sh = [0, 1, 1] if a.ndim == 0 else [2] + list(a.shape)
    if a.ndim not in (0, 2):
        return dict(res='err', msg='%d-dimensional' % a.ndim)
    if not numpy.isfinite(a).all():
        return dict(res='nan', sh=sh)
    return dict(res='ok', sh=sh, d=[halves(x) for x in a.ravel()])


def probe(lang, g, vals):
    """the inputs of the known findings"""
    if lang == 'c':
        vals.update(a=[(1.0, 0)], b=[(2.0, 0)])
        a, b = g.sym['a'], g.sym['b']
        return S.sign(a) * 100000 * S.If(S.Less(a, b), 100000, 1)
    vals.update(x_1=[(0.0, 0)])
    return S.sign(g.sym['x_1'])


def case(lang, seed, n):
    rnd = random.Random('%s/%s/%d' % (lang, seed, n))
    g = PGen(rnd, lang)
    c = dict(id='%s-%s-%d' % (lang, seed, n), lang=lang, key=[lang, seed, n])
    vals = {nm: [(value(rnd), value(rnd)) for _ in range(el(sh))] for nm, sh in SYMS}
    try:
        x = g.e(rnd.choice(SHAPES.get(lang, SHAPES['py'])), rnd.choice([1, 2, 3, 3, 4]))
        if vv.size(vv.dump(x)) > 400:
            raise ValueError
    except Exception as ex:
        x = g.leaf(())      # an ill-formed combination
    if seed == 'probe':
        x = probe(lang, g, vals)
    elif rnd.random() < .25:
        x = vv.op('simplify', x)
    c['expr'] = vv.dump(x)
    used = set()
    def walk(t):
        if t['t'] == 'sym':
            used.add(t['n'])
        for q in t.get('a', []):
            walk(q)
    walk(c['expr'])
    c['env'] = {nm: [[halves(p), halves(q)] for p, q in v] for nm, v in vals.items() if nm in used}
    c['vals'] = vals
    try:
        c['text'], c['errs'] = vv.op('print', x, lang)
    except Exception as ex:
        c['text'], c['errs'] = str(ex)[:300], 1
    if lang == 'py' and not c['errs']:
        c['obs'] = run_py(c['text'], vals)
    return c


def main():
    if sys.argv[1] == 'gen':
        lang, seed, first, count, out, prog = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        todo = [(lang, seed, k) for k in range(first, first + count)]
    else:
        first, count, out, prog = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
        todo = [tuple(x) for x in json.loads(sys.argv[2])][first:first + count]
    with open(out, 'a') as f:
        for k, key in enumerate(todo):
            with open(prog, 'w') as p:
                p.write(json.dumps(dict(id='%s-%s-%d' % key, key=list(key), n=first + k, text='', errs=0)))
            signal.alarm(60)
            c = case(*key)
            signal.alarm(0)
            c['n'] = first + k
            f.write(json.dumps(c) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
