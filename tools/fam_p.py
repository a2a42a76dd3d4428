"""P01-P04: printed expressions, judged by spec/PrintSem.tla."""
import run, prt

PLAN = {'P01': [('py', 6000)], 'P02': [('c', 4500)], 'P03': [('f90', 5500)], 'P04': [('m', 4500), ('mo', 4500)]}
FACTOR = 14
NAMES = {'py': 'Python', 'c': 'C', 'f90': 'Fortran', 'm': 'Matlab', 'mo': 'Modelica'}
PROBES = {'P02': [('c', 'probe', 0)], 'P03': [('f90', 'probe', 0)]}


def describe(c, x):
    return '%s text of expression %s: %s\n  text: %s\n  expression: %s\n  specification: %s\n  text evaluates to: %s %s' % (
        NAMES[c['lang']], c['id'], x['what'], c['text'][:1500], str(c.get('expr'))[:1500], x['want'], x['got'], c.get('obs', {}).get('msg', c.get('ast', {}).get('msg', '')))


def key(x):
    return {'sign of zero': 'f90-sign-of-zero', 'integer arithmetic': 'c-integer-arithmetic'}.get(x['class'])


def judged(bdir, cases):
    return run.judge(bdir, 'PrintSem', cases, prt.slim, timeout=850)


def check(rep, bdir):
    pid = rep.pid
    rep.level = 'translation_validation'
    cases = []
    for lang, n in PLAN[pid]:
        cases += prt.record(bdir, lang, rep.seed, n if rep.quick() else n * FACTOR)
    if pid in PROBES:
        cases += prt.again(bdir, PROBES[pid], 'probe')
    byid = {c['id']: c for c in cases}
    fails, gen, dist = [], 0, 0
    for k in range(0, len(cases), 20000):
        f, g, d = judged(bdir, cases[k:k + 20000])
        fails += f; gen += g; dist += d
    fails.sort(key=lambda x: len(byid[x['case']]['text']))
    shown = 0
    for x in fails:
        c = byid[x['case']]
        if key(x) is None or not rep.is_known(key(x)):
            if shown >= 5:
                continue
            again = prt.again(bdir, [c['key']])
            f2, _, _ = judged(bdir, again)
            if not f2:
                rep.cov['not_reproduced'] = rep.cov.get('not_reproduced', 0) + 1
                continue
            shown += 1
        rep.violation(describe(c, x), dict(family='P', key=c['key']), key(x))
    rep.cov.update(programs=len(cases), disagreements_checked=len(cases), states=dist, transitions=gen - len(cases), traces_validated_against_impl=len(cases), evaluations=len(cases),
                   refused_by_printer=sum(c['errs'] > 0 for c in cases), languages=[l for l, _ in PLAN[pid]],
                   rule='random expressions (tools/pworker.py) built and printed with the extension module made from /repo; ' +
                        ('the text is evaluated by Python with the imports of generated modules' if pid == 'P01' else 'the text is compiled and run' if pid in ('P02', 'P03') else 'the text is parsed and given its meaning by spec/LangSem.tla') +
                        '; value and shape judged by spec/PrintSem.tla against spec/Sem.tla',
                   samples=[dict(text=c['text'], lang=c['lang']) for c in (cases[0], cases[1], cases[len(cases) // 2])])
    rep.assumptions = ['one random assignment of the symbols per expression, compared with a rigorous error bound plus relative 1e-9',
                       'truth values occur only as conditions (as numbers in Matlab too)']


def replay(bdir, r):
    cases = prt.again(bdir, [r['key']], 'replay')
    f, _, _ = judged(bdir, cases)
    for x in f:
        print(describe(cases[0], x))
    return not f
