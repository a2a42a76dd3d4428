"""Builds random equation systems with the real code and records what happened,
one JSON line per system (see EqGraph.tla for the format).

  eqworker.py gen PROFILE SEED FIRST COUNT OUT PROGRESS
  eqworker.py list JSON FIRST COUNT OUT PROGRESS      JSON: [[profile, seed, n], ...]

Profiles: accept (well-formed and malformed additions), graph (complete explicit
systems), coupled (residual and coupled equations), perm (the same additions in
two orders)."""
import json, os, random, signal, sys
import vv
from vv import S, halves
from pymbs.symbolics import VarKind as VK, Graph

KINDS = {'Variable': 1, 'Constant': 2, 'Parameter': 4, 'Input': 8, 'State': 0x10, 'Der': 0x20, 'User': 0x40, 'Sensor': 0x100, 'Graphics': 0x200, 'Controller': 0x400}
INCS = [0x20, 0x100, 0x360, 1]
MODES = ['V0', 'V1', 'S0', 'S1']
SHAPES = [(), (), (), (2,), (3,), (3,), (2, 2), (3, 3), (2, 3)] * 4 + [(4,), (5,), (6,), (4, 4), (3, 2), (3, 4)]
ODD = ['sinx', 'cosx', 'sin0', 'cos0', 'sin00', 'M_', 'C_', 'x', 'y', 'q', 'a_1', 'tanx', 'x_1', 'atan20']


def el(sh):
    n = 1
    for k in sh:
        n *= k
    return n


class Gen(object):
    """well-shaped random expressions over the symbols in self.av"""
    big = True              # numbers beyond the range of a C int and divisions by zero may occur

    def __init__(self, rnd):
        self.r = rnd
        self.av = []        # (object, shape)

    def num(self):
        r = self.r
        return r.choice([0, 1, 2, -1, 3, -2, 0.5, 2.5, -1.25, 0.1, 1e-3, 4] if not self.big or r.random() < .98 else [65536, -100000, 2000000000, 2147483648, 1e12])

    def leaf(self, sh):
        r = self.r
        c = [o for o, s in self.av if s == sh]
        x = r.random()
        if c and x < 0.8:
            return r.choice(c)
        if sh == ():
            v = [(o, s) for o, s in self.av if len(s) > 0]
            if v and x < 0.93:
                o, s = r.choice(v)
                return S.element(o, r.randrange(s[0]), r.randrange(s[1]) if len(s) == 2 else 0)
            return S.Number(self.num())
        if x < 0.85:
            return S.zeros(sh)
        if len(sh) == 2 and sh[0] == sh[1] and x < 0.9:
            return S.eye(sh)
        return self.mat(sh, 0)

    def mat(self, sh, d):
        if len(sh) == 1:
            return S.Matrix([self.e((), d) for _ in range(sh[0])])
        return S.Matrix([[self.e((), d) for _ in range(sh[1])] for _ in range(sh[0])])

    def e(self, sh, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf(sh)
        k = r.random()
        if sh == ():
            if k < 0.5:
                a, b = self.e((), d - 1), self.e((), d - 1)
                return r.choice([lambda: a + b, lambda: a - b, lambda: a * b, lambda: a * b, lambda: a + b])()
            if k < 0.55:
                return -self.e((), d - 1)
            if k < 0.72:
                return r.choice([S.sin, S.cos, S.sin, S.cos, S.tan])(self.e((), d - 1) if r.random() < .4 else self.leaf(()))
            if k < 0.75:
                return S.atan2(self.e((), d - 1), self.e((), d - 1))
            if k < 0.79:
                n = r.choice([2, 3, 2, -1])
                x = self.e((), d - 1)
                return x ** n if n > 0 or self.big else (x * x + 0.5) ** n     # programs: no constant 1/0
            if k < 0.82:
                b = self.e((), d - 1)
                return self.e((), d - 1) / (b * b + 1)
            if k < 0.85:
                n = r.choice([2, 3])
                return S.scalar(S.transpose(self.e((n,), d - 1)) * self.e((n,), d - 1))
            if k < 0.87:
                return S.If(S.Less(self.e((), d - 1), self.e((), 1)), self.e((), d - 1), self.e((), d - 1))
            if k < 0.92:
                n = r.choice([2, 3])
                return S.element(self.e((n,), d - 1), r.randrange(n), 0)
            if k < 0.95:
                n = r.choice([2, 3])
                return S.element(self.e((n, n), d - 1), r.randrange(n), r.randrange(n))
            if k < 0.975:
                return r.choice([lambda x: S.atan(x * 0.75), abs])(self.e((), d - 1))      # not atan(tan(x)), see the known findings
            a = self.e((), d - 1)
            return r.choice([lambda: (a * a + 1) ** 0.5, lambda: S.sign(self.leaf(()) + 0.123456), lambda: S.asin(S.sin(a) * 0.75), lambda: S.acos(S.cos(a) * 0.75), lambda: (a * a + 2) ** -1.5])()
        if k < 0.3:
            return self.e(sh, d - 1) + self.e(sh, d - 1)
        if k < 0.37:
            return self.e(sh, d - 1) - self.e(sh, d - 1)
        if k < 0.42:
            return -self.e(sh, d - 1)
        if k < 0.55:
            return self.e((), d - 1) * self.e(sh, d - 1)
        if len(sh) == 1:
            n = sh[0]
            if k < 0.8:
                m = r.choice([n, 2, 3, 2, 3, n, n, 4])
                return self.e((n, m), d - 1) * self.e((m,), d - 1)
            if k < 0.83:
                v = self.e(sh, d - 1)
                return S.If(S.Greater(self.leaf(()), self.leaf(())), v, self.e(sh, 1))
            if k < 0.88:
                A = self.e((n, n), d - 1)
                return S.solve(A + vv.perm(r, n, 7), self.e(sh, d - 1))
            return self.mat(sh, d - 1)
        n, m = sh
        if k < 0.68:
            return S.transpose(self.e((m, n), d - 1))
        if k < 0.78 and sh == (3, 3):
            return S.skew(self.e((3,), d - 1))
        if k < 0.81 and n == m and n > 1:
            return S.outer(self.e((n,), d - 1), self.e((m,), d - 1))
        if k < 0.9:
            return self.e((n, 2), d - 1) * self.e((2, m), d - 1) if (n, m) != (2, 3) else self.e((2, 2), d - 1) * self.e((2, 3), d - 1)
        return self.mat(sh, d - 1)


class Sys(object):
    """one equation system: records every addition with what is observable after it"""

    def __init__(self, log=True, each=True):
        self.each = each
        self.g = Graph()
        self.c = self.g.cgraph
        self.sym = {'time': self.c.getVariable('time')}
        self.shape = {'time': ()}
        self.names = ['time']
        self.tried = []
        self.steps = []
        self.log = log
        self.prev = None
        if log and each:
            self.prev = self.full()

    def observe(self):
        o = {'vars': {}, 'known': [], 'init': {}, 'comment': {}}
        for k, v in KINDS.items():
            try:
                o['vars'][k] = sorted([x['n'], x['s']] for x in json.loads(vv.graph('vars', self.c, v)))
            except Exception:
                o['vars'][k] = [['error', [0, 0, 0]]]
        for n in self.tried:
            try:
                self.c.getVariable(n)
            except Exception:
                continue
            o['known'].append(n)
            try:
                o['init'][n] = json.loads(vv.graph('initval', self.c, n))
            except Exception:
                o['init'][n] = {'t': 'none', 's': [0, 0, 0]}
            try:
                o['comment'][n] = vv.graph('comment', self.c, n)
            except Exception:
                o['comment'][n] = '?error'
        return o

    def full(self):
        eqs = {}
        for n in self.tried:
            try:
                eqs[n] = vv.graph('equation', self.c, n)
            except Exception:
                pass
        return (self.observe(), eqs)

    def done(self, st, f):
        """performs f, records"""
        if self.log:
            self.steps.append(st)
        try:
            f()
            st['res'] = 'ok'
        except BaseException as ex:
            if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                raise
            st['res'] = 'err'
            st['msg'] = str(ex)[:200]
        if self.log and self.each:
            o = self.full()
            st['changed'] = o != self.prev
            st['obs'] = o[0]
            self.prev = o
        return st['res'] == 'ok'

    def var(self, name, shape, kind, init=None, comment=None, raw=False):
        if name not in self.tried:
            self.tried.append(name)
            if self.log and self.each:
                self.prev = self.full()
        if isinstance(init, list):
            init = S.Matrix(init)
        st = dict(op='var', name=name, shape=shp_of(shape), kind=kind, comment=name if comment is None else comment)
        if init is not None:
            i = init if isinstance(init, S.Basic) else S.Number(init)
            st['init'] = vv.dump(i)
            st['simp'] = vv.dump(vv.op('simplify', i))
        def f():
            v = self.g.addVariable(name, shape, kind, init, comment=comment) if not raw else self.c.addVariable(name, shape, kind, init, comment or name)
            self.sym[name] = v
            self.shape[name] = shape
            self.names.append(name)
        return self.done(st, f)

    def eq(self, lhs, rhs, implicit=False, wrapper=True):
        """lhs: None | object | list, rhs: object | list"""
        st = dict(op='eq', imp=implicit)
        ls = lhs if isinstance(lhs, list) else [lhs]
        st['lhs'] = [vv.dump(x) for x in ls if x is not None]
        st['lvec'] = isinstance(lhs, list)
        if isinstance(rhs, list):
            rs = rhs
        else:
            rs = [rhs]
        st['rvec'] = isinstance(rhs, list)
        st['rhs'] = [vv.dump(x) if isinstance(x, S.Basic) else vv.lit(x) for x in rs]
        # the addition as the system sees it (numbers folded), for the rules that look at symbols
        st['simp'] = [vv.dump(vv.op('simplify', x)) if isinstance(x, S.Basic) else vv.lit(x) for x in rs]
        def f():
            if wrapper:
                self.g.addEquation(list(lhs) if isinstance(lhs, list) else lhs, rhs, implicit=implicit)
            else:
                self.c.addEquation(lhs, rhs, implicit)
        ok = self.done(st, f)
        if ok and self.log and not st['lvec'] and st['lhs'] and st['lhs'][0]['t'] in ('sym', 'der') and not implicit:
            n = st['lhs'][0]['n'] if st['lhs'][0]['t'] == 'sym' else '$DER' + st['lhs'][0]['a'][0].get('n', '?')
            try:
                st['back'] = json.loads(vv.graph('equation', self.c, n))
            except Exception as ex:
                st['back'] = {'t': 'none', 's': [0, 0, 0]}
        return ok


def shp_of(sh):
    return [0, 1, 1] if sh == () else [1, sh[0], 1] if len(sh) == 1 else [2, sh[0], sh[1]]


def value(rnd):
    return round(rnd.choice([rnd.uniform(-2, 2), rnd.uniform(0.2, 1.4), rnd.uniform(-0.5, 0.5)]), 6)


def env_of(rnd, shapes):
    return {n: [[halves(value(rnd)), halves(value(rnd))] for _ in range(el(s))] for n, s in shapes.items()}


def finals(case, build, modes, incs=INCS, observe=True):
    """builds the system anew for every mode and records the assignment lists"""
    case['finals'] = []
    want = os.environ.get('EQ_MODES')
    for mode in modes:
        if want and mode not in want.split(','):
            continue
        s = build(False)
        fin = dict(mode=mode, lists=[])
        try:
            if mode[0] == 'S':
                vv.graph('makeScalar', s.c)
            vv.graph('build', s.c, mode[1] == '1')
            fin['res'] = 'ok'
        except Exception as ex:
            fin['res'] = 'err'
            fin['msg'] = str(ex)[:200]
        if fin['res'] == 'ok':
            for inc in incs:
                if inc == 1 and mode[1] == '1':
                    continue
                try:
                    fin['lists'].append(dict(inc=inc, res='ok', list=json.loads(vv.graph('assignments', s.c, inc, 0))))
                except Exception as ex:
                    fin['lists'].append(dict(inc=inc, res='err', msg=str(ex)[:200], list=[]))
            if observe:
                s.tried = [x for x in case['tried']]
                fin['obs'] = s.observe()
        case['finals'].append(fin)


# ---------------------------------------------------------------- profiles
def names(rnd, n):
    pool = ['v%d' % i for i in range(n)]
    if rnd.random() < 0.3:
        for k, o in enumerate(rnd.sample(ODD, min(len(ODD), n // 2))):
            pool[rnd.randrange(n)] = o
    return list(dict.fromkeys(pool))


def konst(g, sh, rnd):
    """a constant expression for initial values and parameters"""
    f = lambda: g.num() if rnd.random() < .8 else rnd.choice([0.1 + 0.2, 1 / 3.0, 12345.678, 1e-7, 1e6])
    if sh == ():
        return f()
    if len(sh) == 1:
        return S.Matrix([f() for _ in range(sh[0])])
    return S.Matrix([[f() for _ in range(sh[1])] for _ in range(sh[0])])


def graph_plan(rnd):
    """the declarations and the dependency skeleton of a complete explicit system"""
    n = rnd.randint(4, 9)
    ns = names(rnd, n)
    plan = []
    for k, nm in enumerate(ns):
        sh = rnd.choice(SHAPES)
        role = rnd.choices(['var', 'state', 'input', 'param', 'const', 'sensor', 'user', 'graphics', 'ctrl'], [10, 3, 2, 3, 1, 3, 1, 1, 1])[0]
        plan.append([nm, sh, role])
    if rnd.random() < 0.5:   # as the generators do: q, qd
        sh = rnd.choice([(), (2,), (3,)])
        plan += [['q', sh, 'q'], ['qd', sh, 'qd']] if 'q' not in ns else []
    return plan


KIND = {'var': 1, 'state': 1, 'q': 1, 'qd': 1, 'input': 8, 'param': 4, 'const': 2, 'sensor': 0x100, 'user': 0x40, 'graphics': 0x200, 'ctrl': 0x400}


def components(s, g, nm, sh, rnd):
    """the equations of a vector or matrix, component by component"""
    o = s.sym[nm]
    idx = [(i, j) for i in range(sh[0]) for j in range(sh[1] if len(sh) == 2 else 1)]
    rnd.shuffle(idx)
    res, mine = [], []
    av = g.av
    while idx:
        g.av = av + mine
        k = 1 if rnd.random() < .75 else rnd.randint(1, len(idx))
        now, idx = idx[:k], idx[k:]
        es = [S.element(o, i, j) for i, j in now]
        if k == 1:
            res.append((es[0], g.e((), rnd.randint(0, 2))))
        else:
            res.append((es, g.e((k,), 2) if k in (2, 3) and rnd.random() < .7 else [g.e((), 1) for _ in es]))
        if rnd.random() < .5:
            mine += [(e, ()) for e in es]
    g.av = av
    return res


def build_graph(rnd, log, deep=3, order=None, drop=0.0, cyc=False, parts=0.3):
    """a complete explicit system; every choice from rnd"""
    s = Sys(log, False)
    g = Gen(rnd)
    plan = graph_plan(rnd)
    t = s.sym['time']
    late = []
    order_ = random.Random(rnd.random())
    cmds = []
    for nm, sh, role in plan:
        init = konst(g, sh, rnd) if role in ('state', 'q', 'qd') and rnd.random() < .8 else konst(g, sh, rnd) if rnd.random() < .2 else None
        cmds.append(('var', nm, sh, KIND[role], init, 'about ' + nm if rnd.random() < .3 else None))
    for c in cmds:
        s.var(*c[1:])
    g.av = [(t, ())]
    par = [(s.sym[nm], sh) for nm, sh, role in plan if role in ('param', 'const')]
    given = [(s.sym[nm], sh) for nm, sh, role in plan if role in ('state', 'input', 'ctrl', 'q', 'qd')]
    eqs = []
    done = []
    # parameters may depend on earlier parameters
    for k, (nm, sh, role) in enumerate(plan):
        if role in ('param', 'const'):
            rhs = konst(g, sh, rnd)
            if rnd.random() < .25 and done:
                gp = Gen(rnd); gp.av = list(done)
                rhs = gp.e(sh, 2)
            eqs.append((s.sym[nm], rhs))
            done.append((s.sym[nm], sh))
    g.av += par + given
    roles = dict((nm, (sh, role)) for nm, sh, role in plan)
    varq = [p for p in plan if p[2] in ('var', 'sensor', 'user', 'graphics')]
    for nm, sh, role in varq:
        x = rnd.random()
        same = [o for o, q in g.av if q == sh]
        if same and x < 0.12:
            rhs = rnd.choice(same)
        elif same and x < 0.2:
            rhs = -rnd.choice(same)
        elif x < 0.26:
            rhs = konst(g, sh, rnd)
        elif x < 0.3 and sh == ():
            rhs = rnd.choice([S.sin(t), t, 2 * t, t * t])
        else:
            rhs = g.e(sh, rnd.randint(1, deep))
        if sh != () and role in ('var', 'sensor') and rnd.random() < parts:
            eqs += components(s, g, nm, sh, rnd)
            if role == 'var':
                g.av += [(s.sym[nm], sh)] * 2
        else:
            eqs.append((s.sym[nm], rhs))
        if role == 'var' or rnd.random() < 0.5:
            g.av.append((s.sym[nm], sh))
            if role == 'var' and rnd.random() < 0.35:
                g.av += [(s.sym[nm], sh)] * 2
    for nm, sh, role in plan:
        if role == 'state':
            eqs.append((S.der(s.sym[nm]), g.e(sh, rnd.randint(1, deep))))
            if rnd.random() < .3 and sh == ():
                late.append(nm)
        elif role == 'q':
            eqs.append((S.der(s.sym[nm]), s.sym['qd']))
        elif role == 'qd':
            if sh == () or rnd.random() < .4:
                rhs = g.e(sh, deep)
            else:
                rhs = S.solve(g.e((sh[0], sh[0]), 2) + vv.perm(rnd, sh[0], 9), g.e(sh, 2))
            eqs.append((S.der(s.sym[nm]), rhs))
    # a variable defined by the derivative of a state
    for nm in late[:1]:
        o = 'w' + nm
        cmds.append(('var', o, (), 0x100, None, None))
        s.var(*cmds[-1][1:])
        eqs.append((s.sym[o], S.der(s.sym[nm]) + g.e((), 1)))
    # a vector of scalars defined at once
    if rnd.random() < .4:
        k = rnd.choice([2, 3])
        nms = ['l%d' % i for i in range(k)]
        for o in nms:
            s.var(o, (), rnd.choice([1, 1, 0x100]))
        eqs.append(([s.sym[o] for o in nms], g.e((k,), 2) if rnd.random() < .6 else [g.e((), 2) for _ in range(k)]))
        if rnd.random() < .7:
            s.var('z', (), 0x100)
            g.av += [(s.sym[o], ()) for o in nms] * 2
            eqs.append((s.sym['z'], g.e((), 2)))
    order_.shuffle(eqs)
    if drop and rnd.random() < drop and len(eqs) > 1:
        eqs.pop()
    if cyc:
        vs = [nm for nm, sh, role in plan if role == 'var' and sh == ()]
        if len(vs) >= 2:
            # an algebraic loop of explicit definitions
            a, b = rnd.sample(vs, 2)
            eqs = [(l, r) for l, r in eqs if not (isinstance(l, S.Basic) and str(l) in (a, b))]
            eqs += [(s.sym[a], s.sym[b] + g.num()), (s.sym[b], S.sin(s.sym[a]))]
    for l, r in eqs:
        s.eq(l, r, wrapper=not any(vv.dump(x)['t'] == 'elem' for x in (l if isinstance(l, list) else [l])))
    if log:
        s.steps[-1]['obs'] = s.observe()
        s.steps[-1]['changed'] = True
    return s


def run_graph(rnd, seedstr, drop=0.0, cyc=False):
    mk = lambda log: build_graph(random.Random(seedstr), log, drop=drop, cyc=cyc)
    s = mk(True)
    case = dict(steps=s.steps, tried=s.tried, env=env_of(rnd, s.shape))
    finals(case, mk, MODES)
    return case


def run_perm(rnd, seedstr):
    """only bookkeeping: the same additions in another order, recorded as a second system"""
    return run_graph(rnd, seedstr)


def run_accept(rnd, seedstr):
    """well-formed and malformed additions in any order"""
    s = Sys(True)
    g = Gen(rnd)
    g.av = [(s.sym['time'], ())]
    ns = names(rnd, rnd.randint(4, 7))
    kinds = {}
    unk = [(S.Symbol('u0', ()), ()), (S.Symbol('u1', (3,)), (3,))]
    for k in range(rnd.randint(6, 14)):
        if rnd.random() < 0.45 or len(s.names) < 3:
            nm = rnd.choice(ns + ['time', 'u0'][:1])
            sh = rnd.choice(SHAPES)
            x = rnd.random()
            init = None
            if x < 0.3:
                init = konst(g, sh, rnd)
            elif x < 0.4:
                init = konst(g, rnd.choice(SHAPES), rnd)
            elif x < 0.55:
                init = g.e(sh, 1)
            kind = rnd.choice([1, 1, 1, 2, 4, 8, 0x40, 0x100, 0x200, 0x400])
            if s.var(nm, sh, kind, init, 'c %d' % k if rnd.random() < .3 else None, raw=rnd.random() < .3):
                g.av.append((s.sym[nm], sh))
                kinds[nm] = kind
        else:
            nm = rnd.choice(s.names[1:] if len(s.names) > 1 else s.names)
            sh = s.shape[nm]
            av = list(g.av)
            if rnd.random() < .15:
                g.av += unk
            if rnd.random() < .85:
                g.av = [a for a in g.av if a[0] is not s.sym[nm]]
            if rnd.random() < .2:
                # derivatives of ordinary variables (they become states)
                g.av += [(S.der(o), q) for o, q in av[1:] if kinds.get(str(o)) == 1 and q == ()][:2]
            rsh = sh if rnd.random() < .8 else rnd.choice(SHAPES)
            rhs = g.e(rsh, rnd.randint(0, 2)) if rnd.random() < .85 else g.num()
            lhs = s.sym[nm]
            x = rnd.random()
            if x < .3 and kinds.get(nm) == 1:
                lhs = S.der(lhs)
            elif x < .34:
                lhs = None
            elif x < .37:
                lhs = rnd.choice(unk)[0]
            elif x < .42:
                lhs = lhs + 1
            elif x < .62 and sh != ():
                lhs = S.element(lhs, rnd.randrange(sh[0]), rnd.randrange(sh[1]) if len(sh) == 2 else 0)
                rhs = g.e((), rnd.randint(0, 2))
                if rnd.random() < .4:
                    rhs = rhs + S.element(s.sym[nm], rnd.randrange(sh[0]), rnd.randrange(sh[1]) if len(sh) == 2 else 0)
            imp = rnd.random() < .12
            if x > .9:
                k = rnd.choice([2, 3])
                l = [s.sym[rnd.choice(s.names)] for _ in range(k)]
                s.eq(l, [g.e(s.shape[str(o)] if str(o) in s.shape else (), 1) for o in l] if rnd.random() < .6 else g.e((k,), 1), imp, wrapper=False)
            else:
                s.eq(lhs, rhs, imp, wrapper=lhs is not None and vv.dump(lhs)['t'] != 'elem' and not isinstance(rhs, (int, float)) and rnd.random() < .5)
            g.av = av
    return dict(steps=s.steps, tried=s.tried, env=env_of(rnd, dict(s.shape, u0=(), u1=(3,))), finals=[])


def build_coupled(rnd, log, kind):
    s = Sys(log, False)
    g = Gen(rnd)
    t = s.sym['time']
    g.av = [(t, ())]
    for k in range(rnd.randint(1, 2)):
        s.var('p%d' % k, (), rnd.choice([8, 4, 2]))
        g.av.append((s.sym['p%d' % k], ()))
    for k in range(2):
        nm = 'p%d' % k
        if nm in s.sym:
            pk = [x for q in (4, 2) for x in json.loads(vv.graph('vars', s.c, q)) if x['n'] == nm]
            if pk:
                s.eq(s.sym[nm], rnd.choice([0, 1, 4, 0.3, 1.7, -0.8, 2.3]))      # keeps the coefficients below from vanishing
    n = rnd.randint(1, 4)
    xs = []
    for k in range(n):
        s.var('x%d' % k, (), 1)
        xs.append(s.sym['x%d' % k])
    if rnd.random() < .4:
        s.var('st', (), 1, konst(g, (), rnd))
        g.av.append((s.sym['st'], ()))
    pre = list(g.av)
    lin = lambda o, vs: sum([(rnd.choice([1, 2, -3, 0.5]) + (rnd.random() < .4) * g.leaf(())) * v for v in vs], rnd.choice([1, 2, -3]) * o)
    eqs = []
    for k in range(n):
        if kind == 'tri':
            vs = [x for x in xs[:k] if rnd.random() < .6]
        else:
            vs = [x for x in xs if x is not xs[k] and rnd.random() < .5]
        g.av = pre
        exp = lin(xs[k], vs) - g.e((), 2)
        if rnd.random() < .2:
            exp = lin(xs[k], vs) + S.sin(g.e((), 1)) - 1
        m = rnd.random()
        if m < .65:
            eqs.append((None, exp, False))
        elif m < .85:
            eqs.append((xs[k], lin(g.num(), vs) + g.e((), 1), False))
        else:
            eqs.append((xs[k], exp, True))
    g.av = pre + [(x, ()) for x in xs]
    if 'st' in s.sym:
        eqs.append((S.der(s.sym['st']), g.e((), 2), False))
    s.var('z', (), 0x100)
    eqs.append((s.sym['z'], g.e((), 2), False))
    if kind == 'short' and len(eqs) > 2:
        eqs.pop(rnd.randrange(len(eqs) - 1))
    if kind == 'over':
        eqs.append((None, g.e((), 1) + xs[0], False))
    rnd.shuffle(eqs)
    for l, r, i in eqs:
        s.eq(l, r, i, wrapper=l is not None)
    return s


def run_coupled(rnd, seedstr):
    kind = rnd.choice(['tri', 'tri', 'full', 'full', 'short', 'over'])
    mk = lambda log: build_coupled(random.Random(seedstr), log, kind)
    s = mk(True)
    case = dict(steps=s.steps, tried=s.tried, env=env_of(rnd, s.shape), kind=kind)
    finals(case, mk, ['V0', 'V1', 'S0'], incs=[0x20, 0x100, 0x120, 1])
    return case


def main():
    mode = sys.argv[1]
    if mode == 'gen':
        prof, seed, first, count, out, prog = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        todo = [(prof, seed, n) for n in range(first, first + count)]
    else:
        first, count, out, prog = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
        todo = [tuple(x) for x in json.loads(sys.argv[2])][first:first + count]
    with open(out, 'a') as f:
        for k, (prof, seed, n) in enumerate(todo):
            with open(prog, 'w') as p:
                p.write(json.dumps(dict(id='%s-%d-%d' % (prof, seed, n), n=first + k, profile=prof, seed=seed, steps=[], finals=[], env={}, tried=[])))
            signal.alarm(60)
            seedstr = '%s/%d/%d' % (prof, seed, n)
            rnd = random.Random('env/' + seedstr)
            if prof == 'accept':
                case = run_accept(random.Random(seedstr), seedstr)
            elif prof == 'coupled':
                case = run_coupled(rnd, seedstr)
            elif prof == 'missing':
                case = run_graph(rnd, seedstr, drop=1.0)
            elif prof == 'cycle':
                case = run_graph(rnd, seedstr, cyc=True)
            else:
                case = run_graph(rnd, seedstr)
            signal.alarm(0)
            case.update(id='%s-%d-%d' % (prof, seed, n), n=first + k)
            f.write(json.dumps(case) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
