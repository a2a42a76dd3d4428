"""Assembles models with the real code call by call, accepted and refused
calls alike, and records after every call what the model contains, one JSON
line per history (see Assembly.tla for the format).

  aworker.py gen PROFILE SEED FIRST COUNT OUT PROGRESS
  aworker.py list JSON FIRST COUNT OUT PROGRESS      JSON: [[profile, seed, n], ...]"""
import contextlib, copy, io, json, keyword, random, signal, struct, sys
import numpy
import vv
from vv import S, halves
from pymbs.input import MbsSystem
from pymbs.symbolics import VarKind as VK

DOF = ['Tx', 'Ty', 'Tz', 'Rx', 'Ry', 'Rz']
NAMES = ['a', 'b', 'c', 'arm', 'a_b', 'b_c', 'a_Rx', 'b_Tz', 'body_1', 'body_2', 'joint_1', 'joint_2', 'load_1', 'load_2', 'loop_1', 'constraint_1', 'vis_1', 'sens_1', 'x', 'y', 'F', 'r_a']
BADNAMES = ['1a', 'a b', 'for', 'a-b', '', 'x.y']


def ident(n):
    return n.isidentifier() and not keyword.iskeyword(n)


def number(x):
    d = vv.dump(x) if isinstance(x, S.Basic) else vv.lit(x)
    if d['t'] in ('int', 'real'):
        return struct.unpack('>d', struct.pack('>ii', *d['v']))[0]
    return float(eval(str(x), dict(vars(numpy))))


class History(object):
    def __init__(self, rnd):
        self.r = rnd
        self.w = MbsSystem([0, 0, -1])
        self.steps = []
        self.frames = {'world': self.w}      # key -> object;  a body by its name, a frame by parent/name
        self.body = {'world': 'world'}       # key -> body
        self.syms = ['g', 'time']            # every symbol that was asked for
        self.joints, self.scal, self.vec, self.bodies = [], [], [], []
        self.parent = {}                     # body -> body, as accepted

    # ------------------------------------------------------------------ observation
    def snap(self):
        w = self.w
        s = dict(bodies=sorted(w.bodyDict), joints=sorted(w.jointDict), loads=sorted(w.loadDict), sensors=sorted(w.sensorDict), loops=sorted(w.loopDict), cons=sorted(w.constraintDict),
                 shapes=sorted(w.graphRepDict), syms=[], frames=[], ends=[])
        for n in self.syms:
            try:
                w.graph.getVariable(n)
                if n not in s['syms']:
                    s['syms'].append(n)
            except Exception:
                pass
        for k, o in self.frames.items():
            s['frames'] += [k + '/' + f for f in sorted(o._frames) if f != '_CS_0']
            if len(set(id(x) for x in o.children)) != len(o.children) or len([x for x in o.children if type(x).__name__ == 'Frame']) != len(o._frames):
                s['frames'].append(k + '/?')
        for n, b in sorted(w.bodyDict.items()):
            if b.endOfJoint is not None:
                s['ends'].append(n)
        if w.endOfJoint is not None:
            s['ends'].append('world')
        return s

    def do(self, s, f, args=()):
        keep = copy.copy([list(a) if isinstance(a, list) else a for a in args])
        try:
            s['_o'] = f()
            s['res'] = 'ok'
        except Exception as ex:
            s['res'], s['msg'], s['_o'] = 'err', type(ex).__name__ + ': ' + str(ex)[:200], None
        s['same'] = all(list(a) == k for a, k in zip(args, keep) if isinstance(a, list))
        s['mem'] = self.snap()
        self.steps.append(s)
        return s['_o']

    # ------------------------------------------------------------------ choices
    def name(self, auto=.3):
        r = self.r
        u = r.random()
        if u < auto:
            return None
        if u < auto + .03:
            return r.choice(BADNAMES)
        if u < auto + .3:
            return r.choice(NAMES)
        if u < auto + .45:
            return r.choice('ab') + ''.join(r.choice(['_a', '_b', '_c']) for _ in range(r.randint(0, 2)))
        return r.choice('ABCDEFGH') + str(r.randint(0, 99))

    def sym(self):
        r = self.r
        u = r.random()
        n = r.choice(BADNAMES) if u < .02 else r.choice(NAMES + ['g', 'time']) if u < .2 else r.choice('uvwpk') + str(r.randint(0, 99))
        self.want(n)
        return n

    def want(self, *ns):
        for n in ns:
            if n not in self.syms:
                self.syms.append(n)

    def key(self, attached=None):
        """some frame or body"""
        r = self.r
        ks = [k for k in self.frames if attached is None or (self.body[k] == 'world' or self.body[k] in self.parent) == attached]
        return r.choice(ks or ['world'])

    def base(self, op, n, **kw):
        return dict(op=op, auto=n is None, name=n or '', ident=n is None or ident(n), bad=False, **kw)

    # ------------------------------------------------------------------ commands
    def add_body(self):
        r = self.r
        n = self.name()
        s = self.base('body', n)
        cg = [0, r.randint(-1, 1), .5]
        I = r.choice([[[1, 0, 0], [0, 2, 0], [0, 0, 3]], [1, 0, 2, 0, 0, 3]])
        m = r.choice([1, 2.5])
        if r.random() < .06:
            s['bad'] = True
            k = r.randint(0, 2)
            if k == 0:
                cg = cg[:2]
            elif k == 1:
                I = [[1, 0], [0, 1]]
            else:
                m = '1'
        b = self.do(s, lambda: self.w.addBody(m, cg, I, **({} if n is None else {'name': n})), [cg, I])
        s['found'] = b is not None and self.w.bodyDict.get(b.name) is b
        s['got'] = b.name if b is not None else ''
        if b is not None:
            self.frames[b.name] = b
            self.body[b.name] = b.name
            self.bodies.append(b.name)

    def add_frame(self):
        r = self.r
        k = self.key()
        n = (self.name(0) if r.random() < .6 else r.choice('abc')) if r.random() < .85 else r.choice(['mass', 'name', 'children', 'cg', 'parent'])
        s = self.base('frame', n, on=k)
        p = [1, 0, .5]
        if r.random() < .06:
            s['bad'] = True
            p = r.choice([[1, 0], [1, 'a', 0]])
        s['taken'] = hasattr(self.frames[k], n)
        f = self.do(s, lambda: self.frames[k].addFrame(n, p), [p])
        s['found'] = f is not None and getattr(self.frames[k], n, None) is f
        s['got'] = n
        if f is not None:
            self.frames[k + '/' + n] = f
            self.body[k + '/' + n] = self.body[k]
            s['mem'] = self.snap()

    def add_joint(self):
        r = self.r
        n = self.name()
        c1, c2 = self.key(None if r.random() < .3 else True), self.key(None if r.random() < .15 else False)
        if r.random() < .05 and self.bodies:
            c2 = 'world'
        dofs = r.choice([[r.choice(DOF)], [r.choice(DOF)], r.sample(DOF, 2), r.sample(DOF, 3), r.sample(DOF, 6), []])
        s = self.base('joint', n, c1=c1, c2=c2, b1=self.body[c1], b2=self.body[c2], dofs=list(dofs))
        q0 = r.choice([None, [r.choice([0, 1, -2, .5]) for _ in dofs]])
        qd = r.choice([None, [r.choice([0, 1, .25]) for _ in dofs]])
        s['q0'] = [halves(float(x)) for x in (q0 or [0] * len(dofs))]
        s['qd0'] = [halves(float(x)) for x in (qd or [0] * len(dofs))]
        u = r.random()
        if u < .04 and dofs:
            dofs[r.randrange(len(dofs))] = r.choice(['Rw', 'x', 'T', 'rx'])
            s['bad'] = True
        elif u < .08 and dofs:
            q0 = [0] * (len(dofs) + r.choice([1, -1]))
            s['bad'] = True
        elif u < .09 and dofs:
            q0 = [0] * len(dofs)
            q0[-1], s['bad'] = 'zero', True
        elif u < .11:
            dofs = dofs + DOF + ['Tx']
            q0 = qd = None
            s['bad'] = True
        elif u < .14 and dofs:
            dofs = dofs + [r.choice(dofs)]
            q0 = qd = None
            s['q0'] = s['qd0'] = [halves(0.0)] * len(dofs)
        s['dofs'] = list(dofs)
        a = dofs
        if len(dofs) == 1 and r.random() < .5:
            a = dofs[0]
        if q0 is not None and len(q0) == 1 and r.random() < .5:
            q0 = q0[0]
        args = [x for x in (a, q0, qd) if isinstance(x, list)]
        kw = {} if n is None else {'name': n}
        before = set(self.w.jointDict)
        j = self.do(s, lambda: self.w.addJoint(self.frames[c1], self.frames[c2], a, q0, qd, **kw), args)
        js = j if isinstance(j, list) else [j] if j is not None else []
        s['found'] = bool(js) and all(x in list(self.w.jointDict.values()) for x in js)
        s['got'] = ''
        s['new'] = [k for x in js for k, v in self.w.jointDict.items() if v is x and k not in before]
        if js:
            self.joints += js
            s['_j'] = js
            self.parent[self.body[c2]] = self.body[c1]

    def add_symbol(self):
        r, w = self.r, self.w
        x, n = self.sym(), self.name(.7)
        kind = r.choice(['input', 'input', 'param', 'param', 'expr', 'vparam'])
        s = self.base(kind, n, sym=x)
        s['ident'] = ident(x) and (n is None or ident(n.replace(' ', '_') if 'param' in kind else n))
        kw = {} if n is None else {'name': n}
        if kind == 'input':
            sh = r.choice([None, (3,), (3,)])
            if r.random() < .05:
                s['bad'], sh = True, [3]
            f = lambda: w.addInput(x, sh, **kw)
        elif kind == 'param':
            v = r.choice([1, -2, .5])
            e = dict(positive=v > 0) if r.random() < .3 else {}
            if r.random() < .08:
                s['bad'] = True
                v, e = r.choice([(-1, dict(positive=True)), (2, dict(negative=True)), (None, {}), (1, dict(positive=True, negative=True))])
            f = lambda: w.addParam(x, v, **dict(kw, **e))
        elif kind == 'vparam':
            v = r.choice([[1, 2, 3], [1, 0, 2, 0, 0, 3]])
            if r.random() < .1:
                s['bad'], v = True, [1, 2]
            sx = {3: 'xyz', 6: ['xx', 'xy', 'yy', 'xz', 'yz', 'zz'], 2: 'xy'}[len(v)]
            self.want(*[x + '_' + k for k in sx])
            s['parts'] = [x + '_' + k for k in sx]
            f = lambda: w.addParam(x, v, **kw)
        else:
            e = r.choice([2, .5] + self.scal + ([self.r.choice(self.scal) * 2] if self.scal else []) + [[1, 2, 3]])
            s['kind'] = 'vec' if isinstance(e, list) else 'scal'
            if r.random() < .08:
                s['bad'], e = True, 'text'
            f = lambda: w.addExpression(x, e, **kw)
        o = self.do(s, f)
        s['found'], s['got'] = o is not None, x
        if o is not None:
            if kind == 'vparam':
                pass
            elif o.shape() == ():
                self.scal.append(o)
            else:
                self.vec.append(o)

    def add_load(self):
        r, w = self.r, self.w
        kind = r.choice(['PtPForce', 'CmpForce', 'CmpTorque'])
        n = self.name(.5)
        c1, c2 = self.key(), self.key()
        ref = r.choice([None, None, self.key()]) if kind != 'PtPForce' else None
        vec = kind != 'PtPForce'
        pool = self.vec if vec else self.scal
        s = self.base('load', n, kind=kind)
        u = r.random()
        lst = False
        if vec and u < .4:
            sy = [r.choice([1, 0, self.scal[0] if self.scal else 2]) for _ in 'xyz']
            lst = True
            if u < .05:
                sy, s['bad'] = sy[:2], True
        elif u < .5 or not pool:
            other = self.scal if vec else self.vec
            if not other:
                return
            sy, s['bad'] = r.choice(other), True
        else:
            sy = r.choice(pool)
        s['lst'] = lst
        if n is not None:
            self.want(n + '_load')
        else:
            self.want(*['load_%d_load' % k for k in range(1, 31)])
        kw = {} if n is None else {'name': n}
        a = [self.frames[c1], self.frames[c2]] + ([self.frames[ref]] if ref else [])
        before = set(w.loadDict)
        self.do(s, lambda: getattr(w.addLoad, kind)(sy, *a, **kw) or True, [sy])
        new = sorted(set(w.loadDict) - before)
        s['got'] = new[0] if len(new) == 1 else ''
        s['found'] = s['res'] == 'ok'

    def add_jload(self):
        r, w = self.r, self.w
        if not self.joints or not self.scal:
            return
        j, n = r.choice(self.joints), self.name(.5)
        s = self.base('jload', n, busy=j.jointLoad is not None, fixed=j.dof is None)
        e = r.choice(self.scal)
        s['lst'] = False
        if r.random() < .3:
            e = e * 3
            s['lst'] = True
            self.want((n or '') + '_load', *['load_%d_load' % k for k in range(1, 31)])
        if r.random() < .05:
            e, s['bad'], s['lst'] = 3, True, False
        kw = {} if n is None else {'name': n}
        before = set(w.loadDict)
        self.do(s, lambda: w.addLoad.Joint(e, j, **kw) or True)
        new = sorted(set(w.loadDict) - before)
        s['got'] = new[0] if len(new) == 1 else ''
        s['found'] = s['res'] == 'ok'

    def add_sensor(self):
        r, w = self.r, self.w
        kind = r.choice(['Distance', 'Position', 'Velocity', 'Acceleration', 'Orientation', 'AngularVelocity', 'AngularAcceleration'])
        x, n = self.sym(), self.name(.7)
        s = self.base('sensor', n, sym=x, kind=kind)
        s['ident'] = ident(x) and (n is None or ident(n))
        a = [self.frames[self.key()], self.frames[self.key()]]
        if kind not in ('Distance', 'Orientation') and r.random() < .4:
            a.append(self.frames[self.key()])
        if r.random() < .05:
            a[r.randrange(len(a))], s['bad'] = 'nowhere', True
        kw = {} if n is None else {'name': n}
        o = self.do(s, lambda: getattr(w.addSensor, kind)(x, *a, **kw))
        s['found'], s['got'] = o is not None, x
        if o is not None and kind in ('Position', 'Velocity'):
            self.vec.append(o)

    def add_jsensor(self):
        r, w = self.r, self.w
        x, n = self.sym(), self.name(.7)
        if r.random() < .3 and self.bodies:
            s = self.base('sensor', n, sym=x)
            b = self.frames[r.choice(self.bodies)]
            f = lambda **kw: w.addSensor.Energy(x, b, **kw)
        elif self.joints:
            j = r.choice(self.joints)
            s = self.base('jsensor', n, sym=x, busy=j.jointSensor is not None, fixed=j.dof is None)
            f = lambda **kw: w.addSensor.Joint(x, j, **kw)
        else:
            return
        s['ident'] = ident(x) and (n is None or ident(n))
        kw = {} if n is None else {'name': n}
        o = self.do(s, lambda: f(**kw))
        s['found'], s['got'] = o is not None, x

    def add_loop(self):
        r, w = self.r, self.w
        js = [j for j in self.joints if j.dof]
        if len(js) < 2 or any(s['op'] == 'loop' and s['res'] == 'ok' for s in self.steps):
            return
        j1, j2 = r.sample(js, 2)
        n = self.name(.5)
        s = self.base('loop', n)
        a = [j1, j2, r.choice([1, -2, .5])]
        if r.random() < .1:
            a[1], s['bad'] = self.w, True
        kw = {} if n is None else {'name': n}
        before = set(w.loopDict)
        self.do(s, lambda: w.addLoop.Transmission(*a, **kw) or True)
        new = sorted(set(w.loopDict) - before)
        s['got'] = new[0] if len(new) == 1 else ''
        s['found'] = s['res'] == 'ok'
        s['_dep'] = j2

    def add_constraint(self):
        r, w = self.r, self.w
        n = self.name(.5)
        s = self.base('con', n)
        a = [self.frames[self.key()], self.frames[self.key()], [1, 0, 1], [0, 0, 0]]
        if r.random() < .15:
            a[r.choice([2, 3])], s['bad'] = [1, 0], True
        elif r.random() < .1:
            a[r.choice([0, 1])], s['bad'] = 'nowhere', True
        kw = {} if n is None else {'name': n}
        before = set(w.constraintDict)
        self.do(s, lambda: w.addConstraint(*a, **kw) or True, a[2:])
        new = sorted(set(w.constraintDict) - before)
        s['got'] = new[0] if len(new) == 1 else ''
        s['found'] = s['res'] == 'ok'

    def add_shape(self):
        r, w = self.r, self.w
        n = self.name(.5)
        kind = r.choice(['Box', 'Sphere', 'Cylinder', 'Line', 'Frame'])
        s = self.base('shape', n)
        c = self.frames[self.key()]
        a = {'Box': [1, 2, 3], 'Sphere': [1], 'Cylinder': [.5, 2], 'Line': [1], 'Frame': [1]}[kind]
        if r.random() < .1 and kind in ('Box', 'Line', 'Frame'):
            a[0], s['bad'] = 'big', True
        elif r.random() < .05:
            c, s['bad'] = 'nowhere', True
        if n is not None:
            self.want('r_' + n, 'T_' + n)
        else:
            for k in range(1, 31):
                for p in ('visual',):
                    self.want('r_%s_%d' % (p, k), 'T_%s_%d' % (p, k))
        kw = {} if n is None else {'name': n}
        before = set(w.graphRepDict)
        self.do(s, lambda: getattr(w.addVisualisation, kind)(c, *a, **kw) or True)
        new = sorted(set(w.graphRepDict) - before)
        s['got'] = new[0] if len(new) == 1 else ''
        s['found'] = s['res'] == 'ok'

    # ------------------------------------------------------------------ the end
    def generate(self):
        w, r = self.w, self.r
        g = dict(op='gen', res='ok', coords=[], order=[], dep=[], q0=[], qd0=[])
        self.steps.append(g)
        signal.alarm(60)
        try:
            mode = r.choice(['Explicit', 'Recursive', 'Recursive', 'OrderN']) if len(self.joints) < 4 else 'Recursive'
            if mode == 'OrderN' and w.loopDict:
                mode = 'Recursive'
            acc = any(s['op'] == 'sensor' and s['res'] == 'ok' and 'Acceleration' in s.get('kind', '') for s in self.steps)
            getattr(w.genEquations, mode)(kinematicsOnly=not acc and r.random() < .5)
        except TimeoutError:
            g['res'], g['msg'] = 'hang', 'no answer within 60 s'
            return
        except Exception as ex:
            import traceback
            g['res'], g['msg'] = 'err', type(ex).__name__ + ': ' + str(ex)[:300] + ' @ ' + traceback.format_exc()[-300:]
            return
        finally:
            signal.alarm(0)
        g['order'] = [vv.dump(x)['n'] for x in w.state.q]
        for k in ('q', 'qd'):
            i = w.graph.getinitVal(w.graph.getVariable(k))
            v = [number(x) for x in ((i[a] for a in range(i.shape()[0])) if i.shape() != () else (i,))]
            g[k + '0'] = [halves(x) for x in v]
        for n, s in enumerate(self.steps):
            for k, j in enumerate(s.get('_j', [])):
                if j.dof:
                    g['coords'].append(dict(n=vv.dump(j.coord)['n'], s=n + 1, k=k + 1))
            if s.get('_dep') is not None and s['res'] == 'ok':
                g['dep'].append(vv.dump(s['_dep'].coord)['n'])

    def run(self, length):
        r = self.r
        self.add_body()
        for _ in range(length):
            c = r.choice(['body'] * 4 + ['joint'] * 6 + ['frame'] * 3 + ['symbol'] * 4 + ['load'] * 3 + ['jload', 'sensor', 'sensor', 'jsensor', 'loop', 'constraint', 'shape'])
            getattr(self, 'add_' + c)()
        if r.random() < .7:
            # attach what is still loose
            for b in list(self.bodies):
                if b not in self.parent:
                    s = self.base('joint', None, c1='world', c2=b, b1='world', b2=b, dofs=['Rz'], q0=[halves(0.0)], qd0=[halves(0.0)])
                    before = set(self.w.jointDict)
                    j = self.do(s, lambda: self.w.addJoint(self.w, self.frames[b], 'Rz'))
                    s['found'], s['got'] = j is not None, ''
                    s['new'] = [k for k, v in self.w.jointDict.items() if v is j and k not in before]
                    if j is not None:
                        s['_j'] = [j]
                        self.joints.append(j)
                        self.parent[b] = 'world'
        if not self.w.constraintDict and all(b in self.parent for b in self.bodies) and any(j.dof for j in self.joints):
            self.generate()


def alarm(*a):
    raise TimeoutError()


def case(prof, seed, n):
    rnd = random.Random('a/%s/%d/%d' % (prof, seed, n))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        h = History(rnd)
        first = h.snap()
        h.run(rnd.choice([4, 8, 12, 16, 20]))
    return dict(id='%s-%d-%d' % (prof, seed, n), key=[prof, seed, n], prof=prof, n=n, first=first, steps=[{k: v for k, v in s.items() if k[0] != '_'} for s in h.steps])


def main():
    signal.signal(signal.SIGALRM, alarm)
    a = sys.argv[1:]
    if a[0] == 'gen':
        prof, seed, first, count, out, prog = a[1], int(a[2]), int(a[3]), int(a[4]), a[5], a[6]
        todo = [(prof, seed, k) for k in range(first, first + count)]
    else:
        l, first, count, out, prog = json.loads(a[1]), int(a[2]), int(a[3]), a[4], a[5]
        todo = [tuple(x) for x in l[first:first + count]]
    with open(out, 'a') as f:
        for i, (p, s, k) in enumerate(todo):
            open(prog, 'w').write(json.dumps(dict(id='%s-%d-%d' % (p, s, k), key=[p, s, k], prof=p, n=first + i, steps=[])))
            f.write(json.dumps(case(p, s, k)) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
