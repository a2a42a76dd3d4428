"""W01-W06: generated programs, judged by spec/ProgSem.tla."""
import json
import run, prog

PLAN = {'W01': [('py', 1500)], 'W02': [('c', 600), ('sf', 300)], 'W03': [('f90', 550)], 'W04': [('m', 1600)], 'W05': [('mo', 1600)], 'W06': [('cw', 350), ('fw', 16)]}
FACTOR = 14
NAMES = {'py': 'Python', 'c': 'C', 'f90': 'Fortran', 'm': 'Matlab', 'mo': 'Modelica', 'sf': 'C (S-function body)', 'cw': 'C (through its Python wrapper)', 'fw': 'Fortran (through its Python wrapper)'}
HOW = {'py': 'the generated modules are imported and called', 'c': 'the generated files are compiled with gcc and called, the S-function bodies compiled into a function declaring their inputs and outputs', 'f90': 'the generated files are compiled with gfortran and called',
       'm': 'the generated files are parsed and executed by spec/LangProg.tla', 'cw': 'the generated C and Fortran files are compiled with the functions of pymbs.ui.compile and called through the written wrapper modules',
       'mo': 'the generated model is parsed and its equations are solved by spec/LangProg.tla'}


def describe(c, x):
    t = '%s program of model %s (%s): ' % (NAMES[c['lang']], c['id'], x['op']) + '; '.join(sorted({y['what'] for y in x['fails']}))
    t += '\n  ' + c.get('msg', '')[-600:]
    for f, s in c.get('files', {}).items():
        t += '\n---- %s\n%s' % (f, s[:3000])
    return t


def judged(bdir, cases):
    return run.judge(bdir, 'ProgSem', cases, prog.slim, timeout=850)


def check(rep, bdir):
    pid = rep.pid
    rep.level = 'translation_validation'
    cases, fails, gen, dist = [], [], 0, 0
    for lang, n in reversed(PLAN[pid]):
        cases = cases + prog.record(bdir, lang, rep.seed, n if rep.quick() else n * FACTOR)
    lang = PLAN[pid][0][0]
    for k in range(0, len(cases), 6000):
        f, g, d = judged(bdir, cases[k:k + 6000])
        fails += f; gen += g; dist += d
    byid = {c['id']: c for c in cases}
    fails = [x for x in fails if any(y['prop'] == pid for y in x['fails'])]
    fails.sort(key=lambda x: len(byid[x['case']]['steps']))
    shown, seen = 0, set()
    for x in fails:
        if x['case'] in seen or shown >= 5:
            continue
        seen.add(x['case'])
        c = byid[x['case']]
        again = prog.again(bdir, [c['key']], 'again%d' % len(seen), keep=True)
        f2, _, _ = judged(bdir, again)
        if not f2:
            rep.cov['not_reproduced'] = rep.cov.get('not_reproduced', 0) + 1
            continue
        shown += 1
        rep.violation(describe(again[0], f2[0]), dict(family='W', key=c['key']))
    rep.cov.update(programs=sum(c.get('res') == 'ok' for c in cases), disagreements_checked=len(cases), states=dist, transitions=gen - len(cases), traces_validated_against_impl=len(cases), evaluations=len(cases),
                   calls=sum(len(c['runs']) for c in cases),
                   rule='random models (tools/wworker.py: states, parameters, constants, inputs, controllers, variables, sensors, graphics) built and written with the extension module made from /repo; ' + HOW[lang] +
                        '; every value returned is compared with the solution of the equations by spec/ProgSem.tla',
                   samples=[dict(id=c['id'], states=c['order'], sensors=c['sensors'], visual=c['visual'], result=c['res']) for c in (cases[0], cases[len(cases) // 2], cases[-1])])
    rep.assumptions = ['one random state, time and (besides the initial values) one set of input values per program, compared with a rigorous error bound plus relative 1e-9']


def replay(bdir, r):
    cases = prog.again(bdir, [r['key']], 'replay', keep=True)
    f, _, _ = judged(bdir, cases)
    for x in f:
        print(describe(cases[0], x))
    return not f
