"""Runs programs of the symbolic algebra against the real code and records
what happened, one JSON line per program (see SymAlg.tla for the format).

  symworker.py gen PROFILE SEED FIRST COUNT OUT PROGRESS
  symworker.py run FILE FIRST COUNT OUT PROGRESS      (programs given as commands)

PROGRESS receives the commands of the program being executed, so that the
driver can tell what was going on when this process died."""
import json, os, random, signal, struct, sys
import vv
from vv import S, lit, halves

MAXTERM = 1500
MAXTOTAL = 6000
UNARY = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs', 'sign', 'transp', 'skew', 'scalar', 'inv', 'neg']
NAMES = {'sin': S.sin, 'cos': S.cos, 'tan': S.tan, 'asin': S.asin, 'acos': S.acos, 'atan': S.atan, 'sign': S.sign,
         'transp': S.transpose, 'skew': S.skew, 'scalar': S.scalar, 'inv': S.inv, 'atan2': S.atan2, 'outer': S.outer,
         'solve': S.solve, 'less': S.Less, 'greater': S.Greater, 'equal': S.Equal, 'der': S.der, 'jac': S.jacobian, 'if': S.If}


def shp(o):
    return tuple(vv.op('shape', o))


def idx(spec):
    """index object from its description: int | [start,stop,step] | tuple of those"""
    f = lambda e: slice(*e) if isinstance(e, list) else e
    return tuple(f(e) for e in spec['t']) if 't' in spec else f(spec['i'])


def cost(t):
    """about how many series operations the evaluation of a term takes"""
    s = t['s']
    k = max(s[1] * s[2], 1) + sum(cost(x) for x in t.get('a', ()))
    if t['t'] == 'jac':
        k *= 1 + max(t['a'][1]['s'][1] * t['a'][1]['s'][2], 1)
    elif t['t'] in ('solve', 'inv'):
        n = t['a'][0]['s'][1]
        k += n * n * n
    elif t['t'] == 'pow' and t['a'][0]['s'][0] == 2:
        k += 8 * t['s'][1] ** 3
        e = t['a'][1]
        if 'v' in e and abs(struct.unpack('>d', struct.pack('>ii', *e['v']))[0]) > 30:
            return 10 * MAXTERM    # more than the specification computes
    elif t['t'] == 'mul':
        k += 2 * s[1] * s[2]
    return k


class Exec(object):
    """executes commands on registers"""

    def __init__(self, graph=None):
        self.regs = {}
        self.last = {}
        self.total = 0
        self.g = None

    def val(self, a):
        return self.regs[a['r']] if 'r' in a else a['x']

    def do(self, c):
        o, A = c['op'], [self.val(a) for a in c['args']]
        if o in ('add', 'sub', 'mul', 'div', 'pow', 'neg', 'abs') and all(isinstance(a, (int, float)) for a in A):
            A[0] = vv.op('wrap', A[0])   # not Python's own arithmetic
        if o == 'sym':
            sh = c['shape']
            if c.get('kind', 1) == 1:
                # tuple (nd, rows, cols), or the usual forms of the interface
                return S.Symbol(c['name'], *([] if sh[0] == 0 else [tuple(sh)] if sh[0] == 1 and sh[1] == 1 else [(sh[1],)] if sh[0] == 1 else [(sh[1], sh[2])]))
            if self.g is None:
                self.g = S.Graph()
            ps = () if sh[0] == 0 else (tuple(sh) if sh[1] == 1 else (sh[1],)) if sh[0] == 1 else (sh[1], sh[2])
            ini = 0.5 if sh[0] == 0 else S.zeros(ps)
            return self.g.addVariable(c['name'], ps, c['kind'], ini)
        if o == 'num':
            return S.Number(A[0]) if c.get('box') else A[0]
        if o in ('zeros', 'eye', 'matrix'):
            sh = c['shape']
            t = (sh[1],) if sh[0] == 1 and sh[2] == 1 else tuple(sh) if sh[0] == 1 else (sh[1], sh[2])
            if o == 'zeros':
                return S.zeros(t)
            if o == 'eye':
                return S.eye(t)
            if (c.get('via') == 'set' or (sh[0] == 1 and sh[1] == 1)) and all(isinstance(a, (int, float)) or shp(a)[0] == 0 for a in A):
                m = S.Matrix(t)
                for k, a in enumerate(A):
                    if sh[0] == 1:
                        m[k] = a
                    else:
                        m[k // sh[2], k % sh[2]] = a
                return m
            if sh[0] == 1:
                return S.Matrix(list(A))
            return S.Matrix([list(A[r * sh[2]:(r + 1) * sh[2]]) for r in range(sh[1])])
        if o == 'add': return A[0] + A[1]
        if o == 'sub': return A[0] - A[1]
        if o == 'mul': return A[0] * A[1]
        if o == 'div': return A[0] / A[1]
        if o == 'pow': return A[0] ** A[1]
        if o == 'neg': return -A[0]
        if o == 'abs': return abs(A[0])
        if o in NAMES: return NAMES[o](*A)
        if o == 'element': return S.element(A[0], c['m'][0], c['n'][0])
        if o == 'get': return A[0][idx(c['index'])]
        if o == 'set':
            A[0][idx(c['index'])] = A[1]
            return None
        if o == 'dt': return vv.op('dt', A[0])
        if o == 'dx': return vv.op('dx', A[0], A[1])
        if o == 'subs': return vv.op('subs', A[0], A[1], A[2])
        if o == 'simplify':
            if c.get('py'):
                A[0].simplify()
                return None
            return vv.op('simplify', A[0])
        if o == 'observe':
            x = A[0]
            c['atoms'] = json.loads(vv.op('atoms', x))
            str(x)
            if not isinstance(x, (int, float)):
                c['pyshape'] = list(x.shape())
                c['pylen'] = len(x)
            for lang in ('c', 'f90', 'm', 'mo', 'py', 'cs'):
                try:
                    vv.op('print', x, lang)
                except Exception:
                    pass    # not every language knows every function
            x == x
            return None
        if o == 'copy': return A[0]
        if o == 'drop': return None
        if o == 'rel':
            R = [self.regs[r] for r in c['regs']]
            for k in ('eq', 'ne', 'lt'):
                c[k] = [[bool(vv.op(k, a, b)) for b in R] for a in R]
            # the answers of the Python operators; numbers answer for themselves
            c['peq'] = [[bool(a == b) for b in R] for a in R]
            c['pne'] = [[bool(a != b) for b in R] for a in R]
            return None
        raise RuntimeError('unknown op ' + o)

    def step(self, c):
        """executes c and completes it with the outcome; False if the program should end here"""
        out = c.get('out', '')
        try:
            r = self.do(c)
            c['res'] = 'ok'
        except Exception as e:
            c['res'] = 'err'
            c['msg'] = str(e)[:150]
        if c['res'] == 'ok' and out and r is not None:
            self.regs[out] = r
        if c['op'] == 'drop' and c['res'] == 'ok':
            n = c['args'][0]['r']
            del self.regs[n]
            self.last.pop(n, None)
        if c['op'] == 'simplify' and c.get('py'):
            pass
        d = {}
        cont = True
        for n, o in self.regs.items():
            t = vv.dump(o)
            if self.last.get(n) != t:
                k = cost(t)
                self.total += k
                if k > MAXTERM or self.total > MAXTOTAL or t['t'] == 'toobig':
                    # too big to be judged in reasonable time: the program ends before this step
                    c['cut'] = True
                    return False
                d[n] = t
                self.last[n] = t
        c['dump'] = d
        c.setdefault('out', '')
        for a in c['args']:
            if 'x' in a:
                a['lit'] = lit(a['x'])
        return cont


LITS = [0, 1, -1, 2, 3, -2, 0.5, -0.5, 1.0, -1.0, 2.0, 0.0, 0.25, 1.5, 7]
BIG = [65536, -65536, 46341, 2000000000, 2147483647, -2147483648, 2147483648, 4294967296]


def literal(rng):
    """seldom one beyond what a C int can hold or multiply"""
    return rng.choice(LITS if rng.random() < 0.95 else BIG)

EXPS = [2, 0, 1, -1, 3, -2, 0.5, 2.0, -0.5, 1.5, -1.0]
SHAPES = [(0, 1, 1)] * 5 + [(1, 3, 1)] * 3 + [(1, 2, 1), (1, 1, 3), (1, 1, 2), (2, 3, 3), (2, 3, 3), (2, 2, 2), (2, 2, 3), (2, 3, 2), (2, 1, 3), (2, 3, 1), (2, 1, 1), (1, 1, 1), (1, 4, 1), (2, 4, 4)]
SHAPES = SHAPES * 3 + [(1, 6, 1), (1, 1, 5), (2, 5, 5), (2, 3, 4), (2, 6, 3)]
WEIGHTS = {
    'base': dict(num=3, zeros=2, eye=2, matrix=6, add=9, sub=7, mul=13, div=4, neg=4, pow=5, fun=8, transp=5, skew=3, scalar=1, inv=2,
                 atan2=1, outer=2, solve=3, cmp=2, cond=2, element=2, get=3, set=1, simplify=8, observe=2, dt=1, dx=1, der=1, jac=0, subs=0, drop=1),
    'shape': dict(num=3, zeros=5, eye=4, matrix=6, add=9, sub=5, mul=16, div=3, neg=2, pow=3, fun=3, transp=8, skew=4, scalar=4, inv=2,
                  atan2=1, outer=4, solve=5, cmp=3, cond=3, element=5, get=5, set=2, simplify=8, observe=2, dt=1, dx=1, der=1, jac=2, subs=0, drop=1),
    'diff': dict(num=2, zeros=1, eye=1, matrix=4, add=7, sub=5, mul=11, div=5, neg=3, pow=6, fun=9, transp=2, skew=2, scalar=1, inv=1,
                 atan2=3, outer=2, solve=2, cmp=1, cond=3, element=2, get=2, set=0, simplify=3, observe=0, dt=7, dx=10, der=3, jac=6, subs=0, drop=0),
    'subs': dict(num=2, zeros=1, eye=1, matrix=4, add=8, sub=5, mul=11, div=4, neg=3, pow=4, fun=6, transp=2, skew=2, scalar=1, inv=1,
                 atan2=1, outer=1, solve=1, cmp=1, cond=2, element=2, get=2, set=0, simplify=4, observe=8, dt=1, dx=1, der=3, jac=0, subs=14, drop=0),
    'persist': dict(num=1, zeros=1, eye=1, matrix=4, add=9, sub=6, mul=12, div=3, neg=3, pow=3, fun=4, transp=3, skew=2, scalar=1, inv=1,
                    atan2=1, outer=1, solve=2, cmp=2, cond=3, element=2, get=3, set=2, simplify=16, observe=8, dt=5, dx=5, der=2, jac=2, subs=0, drop=4),
    'rel': dict(num=4, zeros=3, eye=3, matrix=5, add=9, sub=5, mul=9, div=2, neg=3, pow=3, fun=4, transp=2, skew=2, scalar=2, inv=1,
                atan2=1, outer=1, solve=1, cmp=4, cond=4, element=3, get=1, set=0, simplify=4, observe=0, dt=0, dx=0, der=2, jac=1, subs=0, drop=0),
    'python': dict(num=3, zeros=4, eye=4, matrix=7, add=8, sub=8, mul=9, div=7, neg=4, pow=6, fun=4, transp=2, skew=1, scalar=1, inv=1,
                   atan2=1, outer=1, solve=1, cmp=5, cond=2, element=4, get=14, set=10, simplify=3, observe=4, dt=0, dx=0, der=1, jac=0, subs=0, drop=2),
}


class Gen(object):
    def __init__(self, profile, rng):
        self.p, self.rng = profile, rng
        self.ex = Exec()
        self.n = 0
        self.syms = {}    # reg -> (name, shape, kind)
        self.envnames = []
        self.box = set()
        k = rng.random()
        self.inverse = 2 if k < 0.25 else 1 if k < 0.5 and profile != 'subs' else 0

    # -- choice helpers
    def regs(self, pred=None):
        return [r for r in self.ex.regs if pred is None or pred(self.sh(r))]

    def sh(self, r):
        return tuple(self.ex.last[r]['s']) if r in self.ex.last else shp(self.ex.regs[r])

    def pick(self, pred=None, lit=0.0):
        """an operand: register or literal (scalars only)"""
        rng = self.rng
        if rng.random() < 0.04:
            pred = None
        if rng.random() < lit:
            return {'x': literal(rng)}
        c = self.regs(pred)
        if not c:
            c = self.regs()
        # prefer recent results
        if rng.random() < 0.5:
            return {'r': c[max(len(c) - 1 - rng.randrange(4), 0)]}
        return {'r': rng.choice(c)}

    def ash(self, a):
        return (0, 1, 1) if 'x' in a else self.sh(a['r'])

    def new(self):
        self.n += 1
        return 'r%d' % self.n

    def symbol(self):
        rng = self.rng
        sh = list(rng.choice(SHAPES))
        kind = rng.choice([1, 1, 1, 1, 4, 2])
        name = rng.choice('abcdefgxyzuvw') + str(self.n)
        r = self.new()
        self.syms[r] = (name, sh, kind)
        return dict(op='sym', name=name, shape=sh, kind=kind, args=[], out=r)

    def index(self, sh):
        """index description and the lists it denotes"""
        rng = self.rng

        def one(n):
            if rng.random() < 0.5:
                i = rng.randrange(n) if rng.random() < 0.93 else rng.choice([n, n + 1])
                return i, [i], True
            a = rng.randrange(n)
            b = rng.randint(a + 1, n)
            st = rng.choice([None, None, 1, 2])
            e = [rng.choice([a, None]) if a == 0 else a, b if b < n else rng.choice([n, None]), st]
            if a > 0 and rng.random() < 0.15:
                e[0] = a - n          # negative start of a slice counts from the end
            return e, list(range(n))[slice(*e)], False
        if rng.random() < 0.35:
            e, m, _ = one(sh[1] * sh[2])
            spec = {'t': [e]} if rng.random() < 0.2 else {'i': e}
            return spec, m, []
        e1, m, _ = one(sh[1])
        e2, n, _ = one(sh[2])
        return {'t': [e1, e2]}, m, n

    def command(self):
        rng = self.rng
        w = WEIGHTS[self.p]
        op = rng.choices(list(w), list(w.values()))[0]
        scal = lambda s: s[0] == 0
        vec = lambda s: s[0] == 1
        mat = lambda s: s[0] == 2
        sq = lambda s: s[0] == 2 and s[1] == s[2]
        C = lambda op, *a, **k: dict(op=op, args=list(a), out=self.new(), **k)
        if op == 'num':
            return C('num', {'x': literal(rng)}, box=rng.random() < 0.5)
        if op in ('zeros', 'eye'):
            sh = list(rng.choice([s for s in SHAPES if s[0] > 0]))
            if op == 'eye':
                n = rng.choice([2, 3])
                sh = [2, n, n] if rng.random() < 0.8 else sh
                if sh[0] != 2: sh = [2, 3, 3]
            return C(op, shape=sh)
        if op == 'matrix':
            sh = list(rng.choice([s for s in SHAPES if s[0] > 0 and s[1] * s[2] < 10]))
            k = sh[1] * sh[2]
            p = rng.choice([0.3, 0.6, 0.9])
            return C('matrix', *[self.pick(scal, p) if self.regs(scal) else {'x': literal(rng)} for _ in range(k)], shape=sh, via=rng.choice(['list', 'set']))
        if op in ('add', 'sub'):
            a = self.pick(None, 0.06)
            sa = self.ash(a)
            b = self.pick((lambda s: s == sa or s[0] == 0) if sa[0] else None, 0.12)
            if 'x' in a and 'x' in b: return None
            return C(op, a, b)
        if op == 'mul':
            a = self.pick(None, 0.1)
            sa = self.ash(a)
            b = self.pick((lambda s: s[0] == 0 or s[1] == sa[2]) if sa[0] else None, 0.1)
            if 'x' in a and 'x' in b: return None
            if rng.random() < 0.3: a, b = (b, a) if self.ash(a)[0] == 0 else (a, b)
            return C('mul', a, b)
        if op == 'div':
            a = self.pick(None, 0.2)
            b = self.pick(scal, 0.2)
            if 'x' in a and 'x' in b: return None
            return C('div', a, b)
        if op == 'neg': return C('neg', self.pick())
        if op == 'pow':
            a = self.pick(lambda s: scal(s) or sq(s))
            return C('pow', a, {'x': rng.choice(EXPS)})
        if op == 'fun':
            # asin(sin(x)) is folded to x (see the known findings): the inverse functions
            # are only applied to what contains none of sin, cos, tan
            fs = ['sin', 'cos', 'tan', 'sin', 'cos', 'abs', 'sign']
            arg = self.pick(scal if rng.random() < 0.8 else None, 0.1)
            if self.inverse:
                if 'x' in arg or not self.trig(self.ex.last[arg['r']]):
                    fs = ['asin', 'acos', 'atan', 'abs', 'sign'] + (['sin', 'cos', 'tan', 'tan'] if self.inverse == 1 else [])
                elif self.inverse == 2:
                    fs = ['abs', 'sign']
            f = rng.choice(fs)
            if f == 'abs' and 'x' in arg: arg = self.pick(scal)
            return C(f, arg)
        if op in ('transp',): return C('transp', self.pick(lambda s: s[0] > 0))
        if op == 'skew': return C('skew', self.pick(lambda s: s == (1, 3, 1)))
        if op == 'scalar': return C('scalar', self.pick(lambda s: s[1] == 1 and s[2] == 1 and s[0] > 0))
        if op == 'inv': return C('inv', self.pick(lambda s: sq(s) and s[1] < 4))
        if op == 'atan2': return C('atan2', self.pick(scal, 0.1), self.pick(scal, 0.1))
        if op == 'outer':
            a = self.pick(lambda s: s[0] == 1 and s[2] == 1)
            sa = self.ash(a)
            return C('outer', a, self.pick(lambda s: s == sa))
        if op == 'solve':
            a = self.pick(lambda s: sq(s) or (scal(s) and rng.random() < 0.2), 0.03)
            sa = self.ash(a)
            return C('solve', a, self.pick(lambda s: s[2] == 1 and s[1] == sa[1], 0.03))
        if op == 'cmp':
            a = self.pick(scal if rng.random() < 0.8 else None, 0.15)
            sa = self.ash(a)
            return C(rng.choice(['less', 'greater', 'equal']), a, self.pick(lambda s: s == sa, 0.15))
        if op == 'cond':
            a = self.pick(None, 0.15)
            sa = self.ash(a)
            cond = [r for r in self.regs(scal) if self.ex.last[r]['t'] in ('less', 'greater', 'equal', 'int', 'real', 'bool')]
            c = {'r': rng.choice(cond)} if cond and rng.random() < 0.85 else self.pick(scal, 0.2)
            return C('if', c, a, self.pick(lambda s: s == sa, 0.15 if sa[0] == 0 else 0))
        if op == 'element':
            a = self.pick(lambda s: s[0] > 0 or rng.random() < 0.1)
            s = self.ash(a)
            i = rng.randrange(s[1]) if rng.random() < 0.9 else s[1]
            j = rng.randrange(s[2]) if rng.random() < 0.9 else s[2]
            return C('element', a, m=[i], n=[j])
        if op in ('get', 'set'):
            a = self.pick(lambda s: s[0] > 0)
            r = a['r']
            if isinstance(self.ex.regs[r], (int, float)): return None
            s = self.sh(r)
            if op == 'set':
                cand = [q for q in self.regs(lambda s: s[0] > 0) if self.ex.last[q]['t'] in ('mat', 'zero', 'eye')]
                if not cand: return None
                r = rng.choice(cand)
                s = self.sh(r)
            spec, m, n = self.index(s)
            if op == 'get':
                return C('get', {'r': r}, index=spec, m=m, n=n)
            rows, cols = len(m), max(len(n), 1)
            v = self.pick(lambda t: t[1] == rows and t[2] == cols and (t[0] == 0 or rows * cols > 1 or rng.random() < 0.3), 0.3 if rows * cols == 1 else 0)
            if v.get('r') == r: return None
            d = C('set', {'r': r}, v, index=spec, m=m, n=n)
            d['out'] = r
            return d
        if op == 'simplify':
            a = self.pick()
            if isinstance(self.ex.regs[a['r']], (int, float)): return None
            if rng.random() < 0.4:
                d = C('simplify', a, py=True)
                d['out'] = a['r']
                return d
            return C('simplify', a)
        if op == 'observe':
            d = C('observe', self.pick()); d['out'] = ''
            return d
        if op == 'drop':
            c = [r for r in self.ex.regs if r not in self.syms]
            if len(c) < 3: return None
            return dict(op='drop', args=[{'r': rng.choice(c)}], out='')
        if op in ('der', 'dt'):
            a = self.pick()
            if self.derdepth(a['r']) >= 2: return None
            if op == 'der' and self.ex.last[a['r']]['t'] not in ('sym', 'der') and rng.random() < 0.5: return None
            return C(op, a)
        if op == 'dx':
            a = self.pick(lambda s: scal(s) or rng.random() < 0.4)
            c = [r for r in self.syms if self.syms[r][1][0] == 0]
            c += [r for r in self.ex.regs if self.ex.last[r]['t'] == 'der' and self.ex.last[r]['s'][0] == 0 and self.ex.last[r]['a'][0]['t'] == 'sym']
            c += [r for r in self.ex.regs if self.ex.last[r]['t'] == 'elem' and self.ex.last[r]['a'][0]['t'] == 'sym']
            if not c or not self.smooth(a['r']): return None
            return C('dx', a, {'r': rng.choice(c)})
        if op == 'jac':
            a = self.pick(lambda s: s[0] < 2)
            c = [r for r in self.syms if self.syms[r][1][0] == 1 and self.syms[r][1][2] == 1]
            c += [r for r in self.ex.regs if self.ex.last[r]['t'] == 'mat' and self.ex.last[r]['s'][0] == 1 and self.ex.last[r]['s'][2] == 1 and all(e['t'] == 'sym' for e in self.ex.last[r]['a'])]
            c += [r for r in self.ex.regs if self.ex.last[r]['t'] == 'der' and self.ex.last[r]['s'][0] == 1 and self.ex.last[r]['s'][2] == 1 and self.ex.last[r]['a'][0]['t'] == 'sym']
            if not c or not self.smooth(a['r']): return None
            return C('jac', a, {'r': rng.choice(c)})
        if op == 'subs':
            # replace something that occurs (or not) inside the expression
            a = self.pick()
            t = self.ex.last[a['r']]
            inside = [r for r in self.ex.regs if r != a['r'] and self.occurs(self.ex.last[r], t)]
            old = rng.choice(inside) if inside and rng.random() < 0.9 else rng.choice(list(self.ex.regs))
            if isinstance(self.ex.regs[old], (int, float)) or not self.hassym(self.ex.last[old]): return None
            so = self.sh(old)
            new = self.pick(lambda s: s == so, 0.2 if so[0] == 0 else 0)
            if self.ash(new) != so: return None
            if 'r' in new and self.occurs(self.ex.last[old], self.ex.last[new['r']]): return None
            return C('subs', a, {'r': old}, new)
        return None

    def chains(self):
        """two or three products or sums of the same few factors in different order and number"""
        rng = self.rng
        base = [{'r': r} for r in self.regs(lambda s: s[0] == 0) if not isinstance(self.ex.regs[r], (int, float))]
        if not base: return []
        rng.shuffle(base)
        base = base[:rng.choice([1, 2, 2, 3])]
        op = rng.choice(['mul', 'mul', 'add'])
        n = rng.choice([2, 3, 3, 4])
        res, ends = [], []
        for k in range(rng.choice([2, 2, 3])):
            f = [rng.choice(base) for _ in range(n)] if rng.random() < 0.7 or k == 0 else rng.sample(f, n)
            cur = f[0]
            for x in f[1:]:
                o = self.new()
                res.append(dict(op=op, args=[dict(cur), dict(x)], out=o))
                cur = {'r': o}
            ends.append(cur['r'])
            if rng.random() < 0.2:
                res.append(dict(op='simplify', py=True, args=[dict(cur)], out=cur['r']))
        return res + [dict(op='rel', regs=ends + [b['r'] for b in base][:2], args=[], out='')]

    def occurs(self, small, big):
        return small == big or any(self.occurs(small, x) for x in big.get('a', ()))

    def isnan(self, t):
        return (t['t'] == 'real' and (t['v'][0] & 0x7ff00000) == 0x7ff00000) or any(self.isnan(x) for x in t.get('a', ()))

    def trig(self, t):
        return t['t'] in ('sin', 'cos', 'tan') or any(self.trig(x) for x in t.get('a', ()))

    def hassym(self, t):
        return t['t'] == 'sym' or any(self.hassym(x) for x in t.get('a', ()))

    def derdepth(self, r):
        f = lambda t: (t['t'] == 'der') + max([f(x) for x in t.get('a', ())] + [0])
        return f(self.ex.last[r])

    def smooth(self, r):
        """nothing inside whose dependence on the variable the spec leaves open"""
        def ok(t):
            if t['t'] == 'jac': return False
            if t['t'] == 'der':
                q = t['a'][0]
                while q['t'] == 'der': q = q['a'][0]
                if q['t'] == 'elem': q = q['a'][0]
                return q['t'] == 'sym'
            return all(ok(x) for x in t.get('a', ()))
        return ok(self.ex.last[r])

    def env(self, names):
        rng = self.rng
        e = {}
        for name, sh, kind in names:
            k = sh[1] * sh[2]
            comps = []
            for i in range(k):
                c = [rng.choice([1, 1, 1, -1]) * rng.randint(8, 120) / 64.0 for _ in range(5)]
                if kind != 1: c[1:] = [0.0] * 4
                comps.append([halves(x) for x in c])
            e[name] = comps
        return e

    def program(self, progress):
        rng = self.rng
        steps = []
        nsym = rng.randint(2, 4)
        length = nsym + rng.randint(4, 14)

        def emit(c):
            steps.append(c)
            progress(steps)
            ok = self.ex.step(c)
            if c.get('cut'):
                steps.pop()
            return ok
        for _ in range(nsym):
            emit(self.symbol())
        if rng.random() < 0.7 and not self.regs(lambda s: s[0] == 0):
            self_scalar = self.symbol(); self_scalar['shape'] = [0, 1, 1]
            self.syms[self_scalar['out']] = (self_scalar['name'], [0, 1, 1], self_scalar['kind'])
            emit(self_scalar)
        tries = 0
        queue = []
        while len(steps) < length and tries < 100:
            tries += 1
            if self.p == 'rel' and not queue and rng.random() < 0.12:
                queue = self.chains()
            c = queue.pop(0) if queue else self.command()
            if c is not None and c['op'] == 'simplify' and isinstance(self.ex.regs.get(c['args'][0]['r']), (int, float)): continue
            if c is None or any('r' in a and a['r'] not in self.ex.regs for a in c['args']) or (c['op'] == 'rel' and any(q not in self.ex.regs for q in c['regs'])):
                continue
            if not emit(c):
                break
            if self.p == 'rel' and len(self.ex.regs) > 3 and rng.random() < 0.3:
                r = [q for q in self.ex.regs if not self.isnan(self.ex.last[q])]
                rng.shuffle(r)
                emit(dict(op='rel', regs=r[:7], args=[], out=''))
        return steps


def settle(case):
    """names in the environments"""
    return case


def main():
    mode = sys.argv[1]
    if mode == 'gen':
        profile, seed, first, count, out, prog = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        cases = None
    else:
        src, first, count, out, prog = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
        cases = [json.loads(l) for l in open(src)]
    fo = open(out, 'a')
    pf = os.open(prog, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for i in range(first, first + count):
        signal.alarm(20)
        if cases is None:
            g = Gen(profile, random.Random('%s/%d/%d' % (profile, seed, i)))
            cid = '%s-%d-%d' % (profile, seed, i)
            head = {'id': cid, 'n': i}

            def progress(steps):
                os.ftruncate(pf, 0)
                os.lseek(pf, 0, 0)
                os.write(pf, json.dumps({'id': cid, 'n': i, 'syms': list(g.syms.values()), 'steps': [{k: v for k, v in s.items() if k not in ('dump',)} for s in steps]}).encode())
            steps = g.program(progress)
            names = list(g.syms.values())
            case = {'id': cid, 'syms': names, 'envs': [g.env(names), g.env(names)], 'steps': steps}
        else:
            case = cases[i]
            ex = Exec()
            steps = []
            for c in case['steps']:
                if any('r' in a and a['r'] not in ex.regs for a in c['args']):
                    continue     # an operand was refused before
                c = {k: v for k, v in c.items() if k not in ('res', 'msg', 'dump', 'atoms', 'eq', 'ne', 'lt', 'peq', 'pne')}
                for a in c['args']:
                    a.pop('lit', None)
                steps.append(c)
                os.ftruncate(pf, 0)
                os.lseek(pf, 0, 0)
                os.write(pf, json.dumps({'id': case['id'], 'n': i, 'syms': case['syms'], 'steps': [{k: v for k, v in s.items() if k != 'dump'} for s in steps]}).encode())
                if not ex.step(c):
                    if c.get('cut'):
                        steps.pop()
                    break
            case['steps'] = steps
            if 'envs' not in case:
                g = Gen('base', random.Random(str(case['id'])))
                case['envs'] = [g.env(case['syms']), g.env(case['syms'])]
        signal.alarm(0)
        fo.write(json.dumps(case) + '\n')
        fo.flush()


if __name__ == '__main__':
    main()
