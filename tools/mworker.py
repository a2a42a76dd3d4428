"""Builds random multibody models with the real code through its public
interface, generates their equations and Python modules, calls them, and
records what happened, one JSON line per model (see Mbs.tla for the format).

  mworker.py gen PROFILE SEED FIRST COUNT OUT PROGRESS
  mworker.py list JSON FIRST COUNT OUT PROGRESS      JSON: [[profile, seed, n], ...]

Profiles are the properties M02 to M10 (which of them decides what is likely)."""
import importlib, io, json, math, os, random, shutil, signal, sys, tempfile, time, contextlib
import vv
from vv import S, halves
import numpy
from pymbs.input import MbsSystem
from pymbs.symbolics import VarKind as VK
import pymbs.common.functions as fn

WORK = tempfile.mkdtemp(dir='.')
AX = 'xyz'


class Fails(Exception):
    pass


def term(x):
    return vv.dump(x) if isinstance(x, S.Basic) else vv.lit(x)


def terms(v):
    """components of a vector or matrix given as (nested) list or Matrix, row by row"""
    if isinstance(v, S.Basic):
        sh = v.shape()
        return [term(v[i]) for i in range(sh[0])] if len(sh) == 1 else [term(v[i, j]) for i in range(sh[0]) for j in range(sh[1])]
    out = []
    for x in v:
        out += terms(x) if isinstance(x, (list, tuple)) else [term(x)]
    return out


def obs(r):
    out = []
    for x in numpy.asarray(r, dtype=float).flatten():
        out.append([1] + halves(x) if math.isfinite(x) else [0, 0, 0])
    return out


def rot(ax, a):
    c, s = math.cos(a), math.sin(a)
    return {'x': [[1, 0, 0], [0, c, -s], [0, s, c]], 'y': [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[ax]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


class Model(object):
    """a model and the record of the calls that made it"""

    def __init__(self, rnd, gv=None, **kw):
        self.rnd = rnd
        self.gv = gv or [0, 0, -1]
        self.w = MbsSystem(self.gv, **kw)
        self.steps = [dict(op='world', gv=terms(self.gv), name=self.w.name, res='ok'), dict(op='param', n='g', v=term(9.81), res='ok')]
        self.fr = {'world': self.w}          # id -> frame or body object
        self.params, self.inputs, self.values, self.joints, self.bodies, self.sens = {'g': self.w.gravity_const}, {}, [], [], [], {}
        self.visual = {}
        self.asm = {}                        # coordinates at which linkages are assembled

    def do(self, s, f):
        s['res'] = 'ok'
        self.steps.append(s)
        try:
            return f()
        except Exception as ex:
            s['res'] = 'err'
            s['msg'] = type(ex).__name__ + ': ' + str(ex)[:200]
            return None

    def param(self, n, v, **kw):
        p = self.do(dict(op='param', n=n, v=term(v)), lambda: self.w.addParam(n, v, **kw))
        self.params[n] = p
        return p

    def body(self, mass, cg, inertia, name=None):
        s = dict(op='body', mass=term(mass), cg=terms(cg), I=terms(inertia))
        b = self.do(s, lambda: self.w.addBody(mass=mass, cg=cg, inertia=inertia, name=name))
        s['n'] = b.name if b is not None else name
        if b is not None:
            self.fr[b.name] = b
            self.bodies.append(b.name)
        return b

    def frame(self, par, name, p, R):
        i = par + '.' + name
        f = self.do(dict(op='frame', n=i, par=par, p=terms(p), R=terms(R)), lambda: self.fr[par].addFrame(name, p=p, R=R))
        if f is not None:
            self.fr[i] = f
        return i

    def joint(self, c1, c2, dofs, q0=None, qd0=None, name=None):
        s = dict(op='joint', c1=c1, c2=c2, dofs=list(dofs), q0=[term(x) for x in (q0 or [0] * len(dofs))], qd0=[term(x) for x in (qd0 or [0] * len(dofs))])
        r = self.do(s, lambda: self.w.addJoint(self.fr[c1], self.fr[c2], list(dofs) if len(dofs) != 1 or self.rnd.random() < .5 else dofs[0],
                                               startVals=q0 if q0 is None or len(q0) != 1 or self.rnd.random() < .5 else q0[0], startVals_d=qd0, name=name))
        if r is not None:
            s['_j'] = r if isinstance(r, list) else [r]
            self.joints.append(s)
        return s

    def input(self, n, sh=()):
        x = self.do(dict(op='input', n=n, sh=list(sh)), lambda: self.w.addInput(n, sh) if sh else self.w.addInput(n))
        self.inputs[n] = sh
        return x

    def expr(self, n, e, **kw):
        return self.do(dict(op='expr', n=n, e=vv.dump(S.Matrix(e)) if isinstance(e, list) else term(e)), lambda: self.w.addExpression(n, e, **kw))

    def load(self, kind, sym, c1, c2, ref=None, name=None):
        f = getattr(self.w.addLoad, kind)
        d = dict(op='load', kind=kind, c1=c1, c2=c2, ref=ref or '', e=vv.dump(S.Matrix(sym)) if isinstance(sym, list) else vv.dump(sym))
        return self.do(d, lambda: f(sym, self.fr[c1], self.fr[c2], **dict(dict(name=name) if name else {}, **({'CSref': self.fr[ref]} if ref else {}))))

    def jload(self, sym, s, k, name=None):
        return self.do(dict(op='jload', j=len([x for x in self.steps[:self.steps.index(s)] if x['op'] == 'joint']) + 1, k=k + 1, e=vv.dump(sym)), lambda: self.w.addLoad.Joint(sym, s['_j'][k], **(dict(name=name) if name else {})))

    def sensor(self, kind, n, c1, c2, ref=None, **kw):
        f = getattr(self.w.addSensor, kind)
        if ref:
            kw['CSref'] = self.fr[ref]
        x = self.do(dict(op='sensor', kind=kind, n=n, c1=c1, c2=c2, ref=ref or ''), lambda: f(n, self.fr[c1], self.fr[c2], **kw))
        self.sens[n] = x
        return x

    def jsensor(self, kind, n, s, k, **kw):
        x = self.do(dict(op='jsensor', kind=kind, n=n, j=len([x for x in self.steps[:self.steps.index(s)] if x['op'] == 'joint']) + 1, k=k + 1),
                    lambda: getattr(self.w.addSensor, kind)(n, s['_j'][k], **kw))
        self.sens[n] = x
        return x

    def csensor(self, kind, n, s, k, **kw):
        x = self.do(dict(op='csensor', kind=kind, n=n, j=len([x for x in self.steps[:self.steps.index(s)] if x['op'] == 'joint']) + 1, k=k + 1),
                    lambda: getattr(self.w.addSensor, kind)(n, s['_j'][k], **kw))
        self.sens[n] = x
        return x

    def bsensor(self, kind, n, bodies, **kw):
        a = bodies
        if kind == 'Energy':
            f = lambda: self.w.addSensor.Energy(n, self.w if a == ['world'] else self.fr[a[0]], **kw)
        else:
            f = lambda: self.w.addSensor.CenterofMass(n, **dict({} if a == ['world'] else dict(Bodies=[self.fr[b] for b in a]), **kw))
        x = self.do(dict(op='bsensor', kind=kind, n=n, bodies=a), f)
        self.sens[n] = x
        return x

    def pick(self, s, k):
        """number of joint s among the joints of the record, and of its coordinate"""
        return [len([x for x in self.steps[:self.steps.index(s)] if x['op'] == 'joint']) + 1, k + 1]

    def loop(self, kind, ind, dep, args, asm=None, **kw):
        d = dict(op='loop', kind=kind, ind=[self.pick(*x) for x in ind], dep=[self.pick(*x) for x in dep], **kw)
        d['_asm'] = asm
        d['_dep'] = dep
        d['_ind'] = ind
        return self.do(d, lambda: getattr(self.w.addLoop, kind)(*args))

    def vis(self, kind, c, n, *a):
        return self.do(dict(op='visual', kind=kind, n=n, c=c), lambda: getattr(self.w.addVisualisation, kind)(self.fr[c], *a, name=n))


NAMES = ['b%d', 'B_%d', 'arm%d', 'a%d_b', 'x%d', 'link_%d']


class Gen(object):
    """a random model"""

    def __init__(self, rnd, prof):
        self.r, self.prof = rnd, prof
        r = rnd
        own = {'M02': ['Explicit'], 'M03': ['Recursive'], 'M04': ['OrderN']}.get(prof)
        self.mode = os.environ.get('M_MODE') or r.choice(own or ['Explicit', 'Recursive', 'Recursive', 'OrderN'])
        self.most = r.choice([2, 3, 4, 4, 5]) if self.mode == 'Explicit' else 9
        gv = r.choice([[0, 0, -1], [0, 0, -1], [0, -1, 0], [1, 0, 0], [0, 0, 0], [0.6, 0, -0.8], [0.5, -0.3, 0.2]])
        self.m = Model(rnd, gv, **({'name': 'ground'} if r.random() < .1 else {}))
        self.np = 0
        self.ns = 0
        if prof == 'M09' and r.random() < .3:
            self.gravity()

    def gravity(self):
        v = self.r.choice([5, 1.5, 0.25, 3])
        self.m.do(dict(op='gravity', v=term(v)), lambda: self.m.w.setGravity(v))

    def number(self):
        r = self.r
        return r.choice([0, 1, 2, -1, 0.5, r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-1, 1), round(r.uniform(-2, 2), 2)])

    def par(self, v):
        """a parameter of value v"""
        self.np += 1
        return self.m.param('p%d' % self.np, v)

    def scal(self, v=None):
        """number, parameter, or expression of parameters with a value near v"""
        r = self.r
        if v is None:
            v = self.number()
        k = r.random()
        if k < .6:
            return v
        if k < .85 or v == 0:
            return self.par(v)
        if k < .93:
            return self.par(abs(v)) * (2 if v > 0 else -2)
        return self.par(v) + r.choice([1, self.par(0.5)]) * 0.25

    def vec(self, zero=.3):
        r = self.r
        k = r.random()
        if k < zero:
            return [0, 0, 0]
        if k < zero + .3:
            v = [0, 0, 0]
            v[r.randrange(3)] = self.scal()
            return v
        return [self.scal() for _ in range(3)]

    def rotm(self, ident=.4):
        r = self.r
        k = r.random()
        if k < ident:
            return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        if k < ident + .1:      # quarter turns
            m = [[int(round(x)) for x in y] for y in rot(r.choice(AX), r.choice([1, 2, 3]) * math.pi / 2)]
            return m
        if k < ident + .2:
            return fn.rot_mat(self.par(r.uniform(-3, 3)), r.choice(AX))
        m = rot(r.choice(AX), r.uniform(-3, 3))
        if r.random() < .6:
            m = mm(m, rot(r.choice(AX), r.uniform(-3, 3)))
        return m

    def inertia(self):
        r = self.r
        k = r.random()
        if k < .1:
            return [[0, 0, 0], [0, 0, 0], [0, 0, 0]]
        if k < .35:
            return fn.diag([self.scal(r.uniform(.2, 3)) for _ in range(3)])
        a = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
        m = [[sum(a[k][i] * a[k][j] for k in range(3)) + (0.3 if i == j else 0) for j in range(3)] for i in range(3)]
        if k < .6:
            return [m[0][0], m[0][1], m[1][1], m[0][2], m[1][2], m[2][2]]
        if k < .8:
            x = {}
            for i in range(3):
                for j in range(i + 1):
                    x[i, j] = x[j, i] = self.scal(m[i][j])
            return [[x[i, j] for j in range(3)] for i in range(3)]
        return m

    def mass(self):
        return self.scal(self.r.choice([1, 2, self.r.uniform(.3, 4), 0.5]))

    def name(self):
        r = self.r
        self.ns += 1
        return None if r.random() < .2 else r.choice(NAMES) % self.ns

    def anyframe(self, b=None):
        """a frame (perhaps a new one) on body b, or anywhere"""
        r, m = self.r, self.m
        if b is None:
            b = r.choice(['world'] + m.bodies + m.bodies)
        fs = [i for i in m.fr if i == b or i.startswith(b + '.')]
        if r.random() < .5 and len(fs) < 4:
            return m.frame(r.choice(fs), r.choice(['f%d', 'cs_%d', 'P%d']) % len(m.fr), self.vec(), self.rotm())
        return r.choice(fs)

    def dofs(self):
        r = self.r
        n = r.choice([1, 1, 1, 1, 1, 1, 2, 2, 3]) if self.prof != 'M08' else r.choice([1, 1, 1, 0, 0, 2])
        if n == 0:
            return []
        d = []
        while len(d) < n:
            x = r.choice(['Rx', 'Ry', 'Rz', 'Rx', 'Ry', 'Rz', 'Tx', 'Ty', 'Tz'])
            if x not in d:
                d.append(x)
        return d

    def start(self, n):
        r = self.r
        k = r.random()
        if n == 0 or k < .4:
            return None
        return [r.choice([0, 1, 0.5, -0.25, round(r.uniform(-1, 1), 3)]) for _ in range(n)]

    def tree(self, nb):
        r, m = self.r, self.m
        moving = 0
        for _ in range(nb):
            d = self.dofs()[:max(0, self.most - moving)]
            if not d and self.prof != 'M08':
                return
            if moving == 0 and _ == nb - 1 and not d:
                d = ['Rz']
            b = m.body(self.mass(), self.vec(), self.inertia(), self.name())
            if b is None:
                return
            moving += len(d)
            where = r.choice(['world', m.bodies[-2] if len(m.bodies) > 1 else 'world'] + m.bodies[:-1])
            m.joint(self.anyframe(where), self.anyframe(b.name), d, self.start(len(d)), self.start(len(d)), None if r.random() < .3 else r.choice(['j%d', 'J_%d', 'hinge%d']) % len(m.joints))

    def force(self, sh):
        """a symbol (input, expression) or list of scalars for a load"""
        r, m = self.r, self.m
        self.ns += 1
        k = r.random()
        if k < .5:
            return m.input('u%d' % self.ns, sh)
        if sh == (3,):
            if k < .7:
                return [self.scal() for _ in range(3)]
            return m.expr('e%d' % self.ns, [self.feedback() for _ in range(3)])
        if k < .7 or not m.params:
            return m.expr('e%d' % self.ns, self.feedback())
        return self.par(self.number())

    def feedback(self):
        """a scalar expression of sensors, inputs, parameters and time"""
        r, m = self.r, self.m
        e = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            k = r.random()
            x = None
            c = [s for s in m.steps if s['op'] in ('sensor', 'jsensor') and s['res'] == 'ok' and s['kind'] in ('Distance', 'Position', 'Velocity', 'Joint', 'AngularVelocity')]
            if k < .5 and c:
                s = r.choice(c)
                x = m.sens[s['n']][r.randrange(3 if s['kind'] not in ('Distance', 'Joint') else 2)]
            elif k < .6 and m.inputs:
                n = r.choice(sorted(m.inputs))
                if m.inputs[n] == ():
                    x = m.w.graph.getVariable(n)
            elif k < .7:
                x = fn.sin(m.w.time) if r.random() < .5 else m.w.time
            if x is None:
                x = self.scal()
            e.append(x * self.scal() if r.random() < .8 else x)
        t = e[0]
        for x in e[1:]:
            t = t + x
        return t

    def loads(self, n):
        r, m = self.r, self.m
        for _ in range(n):
            k = r.choice(['PtPForce', 'CmpForce', 'CmpForce', 'CmpTorque', 'CmpTorque', 'Joint'])
            if k == 'Joint':
                c = [(s, i) for s in m.joints for i in range(len(s['dofs'])) if s['dofs'] and i not in s.setdefault('_l', [])]
                if not c:
                    continue
                s, i = r.choice(c)
                s['_l'].append(i)
                x = self.force(())
                if x is not None:
                    m.jload(x, s, i)
                continue
            c1, c2 = self.anyframe(), self.anyframe()
            if c1.split('.')[0] == c2.split('.')[0] and r.random() < .9:
                continue
            if k == 'PtPForce':
                if c1.split('.')[0] == c2.split('.')[0]:
                    continue
                x = self.force(())
                if x is not None:
                    m.load(k, x, c1, c2)
            else:
                x = self.force((3,))
                if x is not None:
                    m.load(k, x, c1, c2, self.anyframe() if r.random() < .6 else None)

    def sensors(self, n, acc=True):
        r, m = self.r, self.m
        for _ in range(n):
            self.ns += 1
            nm = 's%d' % self.ns
            k = r.random()
            if k < .15:
                c = [(s, i) for s in m.joints for i in range(len(s['dofs'])) if not any(t['op'] == 'jsensor' and t['kind'] == 'Joint' and t['_s'] == (id(s), i) for t in m.steps)]
                if c:
                    s, i = r.choice(c)
                    m.jsensor('Joint', nm, s, i)
                    m.steps[-1]['_s'] = (id(s), i)
                continue
            if k < .25 and acc:
                if r.random() < .6:
                    if not any(t['op'] == 'bsensor' and t['bodies'] == ['world'] and t['kind'] == 'Energy' for t in m.steps) and not any(t['op'] == 'bsensor' and t['kind'] == 'Energy' for t in m.steps):
                        m.bsensor('Energy', nm, ['world'] if r.random() < .3 else [r.choice(m.bodies)])
                else:
                    m.bsensor('CenterofMass', nm, ['world'] if r.random() < .5 else r.sample(m.bodies, r.randint(1, len(m.bodies))))
                continue
            kind = r.choice(['Distance', 'Position', 'Velocity', 'Orientation', 'AngularVelocity'] + (['Acceleration', 'AngularAcceleration'] if acc else []))
            c1, c2 = self.anyframe(), self.anyframe()
            m.sensor(kind, nm, c1, c2, self.anyframe() if kind not in ('Distance', 'Orientation') and r.random() < .6 else None)

    def reactions(self):
        """what joints transmit: known to the recursive formulation"""
        r, m = self.r, self.m
        c = [(s, i) for s in m.joints for i in range(len(s['dofs']))]
        for s, i in r.sample(c, min(len(c), r.randint(1, 3))):
            self.ns += 1
            m.csensor(r.choice(['ConstraintForce', 'ConstraintTorque']), 's%d' % self.ns, s, i)

    def visuals(self, n):
        r, m = self.r, self.m
        for i in range(n):
            m.vis(r.choice(['Line', 'Box', 'Sphere', 'Cylinder', 'Frame', 'Arrow']), self.anyframe(), 'v%d' % i)

    def exact(self, v):
        """a number or parameter of value v"""
        return v if v == 0 or self.r.random() < .5 else self.par(v)

    def bar(self, name=None):
        return self.m.body(self.mass(), self.vec(), self.inertia(), name or self.name()).name

    def mechanism(self, kind):
        """a linkage, assembled at coordinates that are remembered"""
        r, m = self.r, self.m
        u = lambda a, b: round(r.uniform(a, b), 3)
        base = 'world'
        if r.random() < .25:
            base = self.bar()
            m.joint('world', base, r.choice([['Rx'], ['Ry'], ['Rz'], ['Tz']]))
        ax = r.choice(AX) if kind != 'Steering' else 'z'
        pl = [a for a in AX if a != ax]
        turn = lambda q, v: [sum(a * b for a, b in zip(row, v)) for row in rot(ax, q)]
        plus = lambda a, b: [x + y for x, y in zip(a, b)]
        minus = lambda a, b: [x - y for x, y in zip(a, b)]
        unit = lambda a, k=1.0: [k if b == a else 0 for b in AX]

        def planar(lo=.4, hi=1.5):
            v = [0, 0, 0]
            l, a = r.uniform(lo, hi), r.choice([0, 0, r.uniform(-3, 3), r.uniform(-3, 3)])
            v[AX.index(pl[0])], v[AX.index(pl[1])] = round(l * math.cos(a), 3), round(l * math.sin(a), 3)
            return v
        P = lambda v: [self.exact(x) for x in v]
        I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        frame = lambda b, v, n: m.frame(b, n % len(m.fr), P(v), I3)
        R, swap = 'R' + ax, base == 'world' and r.random() < .4
        def close(c1, c2, *a):
            return [m.fr[x] for x in ([c2, c1] if swap else [c1, c2])] + list(a)
        if kind in ('FourBar', 'ThreeBarTrans', 'FourBarTrans'):
            a0 = r.choice([[0, 0, 0], planar()])
            qa, qb, qd = u(-3, 3), u(-3, 3), u(-3, 3)
            b2, b3 = planar(), planar()
            if r.random() < .2:
                qa = r.choice([0, 0, 1.5707963267948966])
            off = unit(ax, u(-.5, .5)) if kind == 'FourBar' and r.random() < .2 else [0, 0, 0]
            d = plus(a0, planar(.5, 1.5))
            B2 = self.bar()
            jA = m.joint(frame(base, a0, 'A%d'), B2, [R], [qa])
            at = plus(a0, turn(qa, b2))
            if kind != 'ThreeBarTrans':
                B3 = self.bar()
                jB = m.joint(frame(B2, plus(b2, off), 'B%d'), B3, [R], [qb])
                at = plus(at, turn(qa + qb, b3))
                c3 = frame(B3, b3, 'C%d')
            else:
                c3 = frame(B2, plus(b2, off if r.random() < .3 else [0, 0, 0]), 'B%d')
            to = minus(at, d)
            l4 = math.sqrt(sum(x * x for x in to))
            B4 = self.bar()
            # in order-n equations the forces closing the loop act at one point
            D = frame(base, plus(d, off) if self.mode == 'OrderN' or r.random() < .5 else d, 'D%d')
            if kind == 'FourBar':
                jD = m.joint(D, B4, [R], [qd])
                c4 = frame(B4, turn(-qd, to), 'E%d')
                m.loop(kind, [(jA, 0)], [(jB, 0), (jD, 0)], close(c3, c4, r.choice([1, -1])), [qb, qd], c1=c3, c2=c4, base=base, plane=pl)
                m.lens = dict([(id(jA), qa)])
            else:
                s = r.choice(pl)
                jD = m.joint(D, B4, [R])
                B5 = self.bar()
                jT = m.joint(B4, B5, ['T' + s])
                # direction of the slide
                e = unit(s)
                i, k = AX.index(pl[0]), AX.index(pl[1])
                qd = math.atan2(to[k], to[i]) - math.atan2(e[k], e[i])
                if ax == 'y':
                    qd = -qd
                dep = [(jT, 0), (jD, 0)]
                if kind == 'ThreeBarTrans':
                    m.loop(kind, [(jA, 0)], dep, close(c3, B5), [l4, qd], c1=c3, c2=B5, base=base, plane=pl)
                else:
                    m.loop(kind, [(jA, 0), (jB, 0)], dep, close(c3, B5), [l4, qd], c1=c3, c2=B5, base=base, plane=pl)
                    m.asm[id(jB)] = qb
            m.asm[id(jA)] = qa
            self.most_bars = [B2, B4]
        elif kind == 'CrankSlider':
            s = r.choice(pl)
            l1 = u(.3, .9)
            l2 = l1 + u(.2, 1.5)
            qa = u(-3, 3) if r.random() < .8 else r.choice([0, 0, 3.141592653589793])
            B1, B3, B2 = self.bar(), self.bar(), self.bar()
            jA = m.joint(base, B1, [R], [qa])
            jS = m.joint(base, B3, ['T' + s])
            jB = m.joint(B3, B2, [R])
            c1, c2 = frame(B1, unit(s, l1), 'Ba%d'), frame(B2, unit(s, l2), 'Bb%d')
            q3 = math.asin(l1 / l2 * math.sin(qa))
            m.loop(kind, [(jA, 0)], [(jS, 0), (jB, 0)], close(c1, c2), [l1 * math.cos(qa) - l2 * math.cos(q3), q3], c1=c1, c2=c2, base=base, plane=pl)
            m.asm[id(jA)] = qa
        else:
            sS = r.choice([1, -1])
            while True:
                R2, R3, L0, L1, q4, al = u(.5, 1.5), u(.5, 1.5), u(.5, 3), u(.3, 1.5), u(-1.5, 1.5), u(-1.3, 1.3)
                H0 = R2 * math.sin(al) - R3 * math.sin(q4)
                k0 = R2 * math.cos(al) - R3 * math.cos(q4)
                sH = 1 if H0 > 0 else -1
                k1 = (R2 * R2 - H0 * H0 - R3 * R3 - k0 * k0) / (2 * R3)
                w = H0 * H0 + k0 * k0 - k1 * k1
                if abs(H0) > .05 and w > .02 and abs(k0 + k1) > .05 and abs(R2 * R3 * math.sin(q4 - al)) > .25 and abs(2 * math.atan((H0 - sH * math.sqrt(w)) / (k0 + k1)) - q4) < 1e-6:
                    break
            qa = sS * (L0 - L1 - k0)
            a0 = r.choice([[0, 0, 0], planar()])
            B1, B2, B3 = self.bar(), self.bar(), self.bar()
            jA = m.joint(frame(base, a0, 'A%d'), B1, ['Ty'], [qa])
            jB = m.joint(frame(B1, [0, sS * L1, 0], 'B%d'), B2, ['Rz'])
            jC = m.joint(frame(B2, [0, sS * R2, 0], 'C%d'), B3, ['Rz'])
            Da, Db = frame(base, plus(a0, [H0, sS * L0, 0]), 'Da%d'), frame(B3, [R3, 0, 0], 'Db%d')
            p12 = -sS * al
            m.loop(kind, [(jA, 0)], [(jB, 0), (jC, 0)], [m.fr[Da], m.fr[Db], sH, sS], [p12, -sS * math.pi / 2 - sS * q4 - p12], c1=Da, c2=Db, base=base, plane=pl)
            m.asm[id(jA)] = qa

    def couplings(self):
        r, m = self.r, self.m
        c = [(s, i) for s in m.joints for i in range(len(s['dofs'])) if not any(x[0] is s and x[1] == i for t in m.steps if t['op'] == 'loop' for x in t['_dep'])]
        r.shuffle(c)
        used, taken = [], set((id(x[0]), x[1]) for t in m.steps if t['op'] == 'loop' for x in t['_ind'])
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            # neither coordinates that drive another loop nor those that assemble a mechanism
            free = [x for x in c if (id(x[0]), x[1]) not in taken]
            if len(c) < 2 or not free:
                return
            d = free[0]
            c.remove(d)
            if r.random() < .15:
                e = self.exact(u) if (u := round(r.uniform(-2, 2), 2)) else 0
                if isinstance(e, S.Basic):
                    m.loop('ExpJoint', [], [d], [d[0]['_j'][d[1]], e], [u], e=term(e))
                    used.append(d)
                continue
            i = r.choice(c + [x for x in used])
            taken.add((id(i[0]), i[1]))
            k = r.choice([0, 1, -1, 2, 1.5, round(r.uniform(-2, 2), 2)])
            m.loop('Transmission', [i], [d], [i[0]['_j'][i[1]], d[0]['_j'][d[1]], k], [None], ratio=term(k))
            if r.random() < .5:
                used.append(d)

    def dependents(self):
        """sensors that report the coordinates determined by loops"""
        for s in [s for s in self.m.steps if s['op'] == 'loop']:
            for j, i in s['_dep']:
                self.ns += 1
                self.m.jsensor('Joint', 's%d' % self.ns, j, i)
                self.m.steps[-1]['_s'] = (id(j), i)

    def build(self):
        r, p = self.r, self.prof
        if p == 'M07':
            kind = os.environ.get('M_LOOP') or r.choice(['FourBar', 'FourBar', 'ThreeBarTrans', 'FourBarTrans', 'CrankSlider', 'Steering', 'Coupling', 'Coupling'])
            if kind == 'Coupling':
                self.tree(r.choice([2, 3, 3, 4]))
                self.couplings()
            else:
                form = r.random()
                if form < .12:              # a coupled pair, then a mechanism
                    self.tree(2)
                    self.couplings()
                self.mechanism(kind)
                if form > .8 and self.m.steps[-1]['res'] == 'ok':
                    self.mechanism(self.m.steps[-1]['kind'] if self.mode == 'OrderN' else r.choice(['FourBar', 'FourBar', 'CrankSlider', 'ThreeBarTrans', kind]))
                elif r.random() < .3:
                    self.most = sum(len(s['dofs']) for s in self.m.joints) + 1
                    self.tree(1)
                if self.m.steps[-1]['res'] == 'ok' and r.random() < .2:
                    self.couplings()
            if not any(s['op'] == 'loop' for s in self.m.steps) or self.m.steps[-1]['res'] != 'ok':
                return self.m
            self.dependents()
            if r.random() < .4:
                self.loads(r.randint(1, 2))
            if r.random() < .4:
                self.sensors(r.randint(1, 2))
            return self.m
        heavy = p == 'M05'
        self.tree(r.choice([1, 2, 2, 3, 3, 4] if p not in ('M08',) else [2, 3, 3, 4, 4, 5]))
        if p == 'M09' and r.random() < .2:
            self.couplings()
            self.dependents()
        self.sensors(r.choice([1, 2, 3]) if r.random() < .4 or heavy else 0, acc=False)
        if p == 'M06':
            self.loads(r.randint(1, 4))
        elif r.random() < .4:
            self.loads(r.randint(1, 2))
        if heavy:
            self.sensors(r.randint(2, 6))
        if heavy and self.mode == 'Recursive' and r.random() < .6:
            self.reactions()
        elif r.random() < .3:
            self.sensors(r.randint(1, 3))
        if r.random() < .15:
            self.visuals(r.randint(1, 2))
        if self.prof == 'M09' and r.random() < .3:
            self.gravity()
        return self.m


def execute(m, c, rnd, mode):
    w = m.w
    opt = dict(graphOptimizations=rnd.random() < .5 and not os.environ.get("NOOPT"), simplify=rnd.random() < .5)
    kin = rnd.random() < (.1 if c['prof'] in ('M05', 'M07') else 0)
    if any(s['op'] == 'csensor' for s in m.steps):
        kin = False
    if any(s['op'] == 'loop' and s['kind'] == 'ExpJoint' for s in m.steps):
        kin = True
    if kin:
        if mode != 'Explicit' and any(s['op'] == 'sensor' and 'Acceleration' in s['kind'] for s in m.steps):
            mode = 'Explicit'       # the recursive methods calculate no accelerations then
        opt['kinematicsOnly'] = True
    mode = os.environ.get('M_FORCE') or mode
    if mode == 'OrderN' and any(s['op'] == 'loop' and s['kind'] != 'FourBar' for s in m.steps):
        mode = 'Recursive'          # these loops are not implemented there
    g = dict(op='gen', mode=mode, opt=opt, kin=kin, res='ok', order=[], q0=[], qd0=[])
    c['steps'].append(g)
    try:
        getattr(w.genEquations, mode)(**opt)
    except Exception as ex:
        g['res'] = 'err'
        import traceback
        g['msg'] = (type(ex).__name__ + ': ' + str(ex)[:300] + ' @ ' + traceback.format_exc()[-400:])
        return
    for s in m.joints:
        s['coords'] = [vv.dump(j.coord)['n'] for j in s['_j']] if s['dofs'] else []
    g['order'] = [vv.dump(x)['n'] for x in w.state.q]
    n = len(g['order'])
    for k in ('q', 'qd'):
        i = w.graph.getinitVal(w.graph.getVariable(k))
        g[k + '0'] = terms(i) if isinstance(i, S.Basic) and i.shape() != () else [term(i)]
    d = tempfile.mkdtemp(dir=WORK)
    name = 'm%d_%d' % (os.getpid(), c['n'])
    mods = {}
    try:
        w.genCode.Python(name, d)
        if os.environ.get('M_KEEP'):
            c['files'] = {f.replace(name, 'm'): open(os.path.join(d, f)).read().replace(name, 'm') for f in sorted(os.listdir(d)) if f.endswith('.py')}
        sys.path.insert(0, d)
        importlib.invalidate_caches()
        for f in ('der_state', 'sensors', 'visual'):
            if os.path.exists('%s/%s_%s.py' % (d, name, f)):
                mods[f] = importlib.import_module(name + '_' + f)
        for k in range(2):
            t = rnd.choice([0.0, rnd.uniform(0, 3)])
            if k == 1 and rnd.random() < .2:
                y = numpy.zeros(2 * n)
            else:
                y = numpy.array([rnd.choice([rnd.uniform(-2, 2), rnd.uniform(-1, 1)]) for _ in range(2 * n)])
            asm = []
            if m.asm:
                steer = any(s['op'] == 'loop' and s['kind'] == 'Steering' for s in m.steps)
                at = {x: m.asm[id(s)] for s in m.joints if id(s) in m.asm for x in s['coords']}
                for i, x in enumerate(g['order']):
                    if x in at:
                        y[i] = at[x] + (rnd.uniform(-1, 1) * (.04 if steer else .15) if k else 0)
                asm = [x for s in m.steps if s['op'] == 'loop' for x in s['_asm']]
                asm = [] if k or None in asm else [halves(x) for x in asm]
            run = dict(op='run', t=halves(t), y=[halves(x) for x in y], inputs=[], yd=[], sens=[], vis=[], asm=asm, res='ok')
            for i, sh in list(m.inputs.items()) + ([('qdd', () if n == 1 else (n,))] if kin else []):
                v = [0.0] * (sh[0] if sh else 1) if k == 0 and rnd.random() < .3 else [round(rnd.uniform(-3, 3), 3) for _ in range(sh[0] if sh else 1)]
                run['inputs'].append(dict(n=i, d=[halves(x) for x in v]))
                for f in mods.values():
                    s = getattr(f, name + '_setInputs', None)
                    if s:
                        s({i: numpy.matrix(v).T if sh else v[0]})
            c['steps'].append(run)
            try:
                run['yd'] = obs(mods['der_state'].__dict__[name + '_der_state'](t, y.copy()))
                if 'sensors' in mods:
                    run['sens'] = [dict(n=a, d=obs(v)) for a, v in mods['sensors'].__dict__[name + '_sensors'](t, y.copy()).items()]
                if 'visual' in mods:
                    run['vis'] = [dict(n=a, d=obs(v)) for a, v in mods['visual'].__dict__[name + '_visual'](y.copy()).items()]
            except (ZeroDivisionError, numpy.linalg.LinAlgError) as ex:
                run['res'] = 'domain'
                run['msg'] = str(ex)
    finally:
        if d in sys.path:
            sys.path.remove(d)
        for f in mods:
            sys.modules.pop(name + '_' + f, None)
        shutil.rmtree(d, ignore_errors=True)


def case(prof, seed, n):
    rnd = random.Random('m/%s/%d/%d' % (prof, seed, n))
    out = io.StringIO()
    c = dict(prof=prof, n=n, msg='')
    with contextlib.redirect_stdout(out):
        g = Gen(rnd, prof)
        m = g.build()
        c['steps'] = m.steps
        if all(s['res'] == 'ok' for s in m.steps):
            try:
                execute(m, c, rnd, g.mode)
            except Exception as ex:
                import traceback
                c['steps'].append(dict(op='run', res='err', msg=traceback.format_exc()[-600:]))
    for s in c['steps']:
        for k in [k for k in s if k.startswith('_')]:
            del s[k]
    return c


def main():
    mode = sys.argv[1]
    if mode == 'gen':
        prof, seed, first, count, out, prog = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        todo = [(prof, seed, n) for n in range(first, first + count)]
    else:
        first, count, out, prog = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
        todo = [tuple(x) for x in json.loads(sys.argv[2])][first:first + count]
    try:
        with open(out, 'a') as f:
            for k, (prof, seed, n) in enumerate(todo):
                i = '%s-%d-%d' % (prof, seed, n)
                with open(prog, 'w') as p:
                    p.write(json.dumps(dict(id=i, n=first + k, key=[prof, seed, n], prof=prof, steps=[])))
                signal.alarm(120)
                t0 = time.time()
                c = case(prof, seed, n)
                signal.alarm(0)
                c.update(secs=round(time.time() - t0, 2), id=i, n=first + k, key=[prof, seed, n])
                f.write(json.dumps(c) + '\n')
                f.flush()
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
