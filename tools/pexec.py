"""Compiles and runs printed expressions (C, Fortran)."""
import os, re, struct, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import run
sys.path.insert(0, run.VERIF + '/tools')

SYMS = None


def halves_hex(h):
    """halves of the double with the given 16 hex digits"""
    hi, lo = struct.unpack('>ii', bytes.fromhex(h))
    return [hi, lo]


def finite(h):
    return (int(h[:3], 16) & 0x7ff) != 0x7ff


def bind(case):
    """name -> (shape, values) for the symbols of the text"""
    import ptable
    b = {}
    for n, sh in ptable.SYMS:
        b[n] = (sh, [x[0] for x in case['vals'][n]])
    for n in ptable.DERS:
        b['der_' + n] = (dict(ptable.SYMS)[n], [x[1] for x in case['vals'][n]])
    words = set(re.findall(r'[A-Za-z_]\w*', case['text']))
    return {n: v for n, v in b.items() if n in words or 'F' + n in words or 'M' + n in words}


# ---------------------------------------------------------------- C
def c_decl(n, sh, v):
    if sh == ():
        return 'double %s = %s;' % (n, float(v[0]).hex())
    if len(sh) == 1 or sh[0] == 1 and sh[1] > 1:
        return 'double %s[%d] = {%s};' % (n, len(v), ','.join(float(x).hex() for x in v))
    return 'double %s[%d][%d] = {%s};' % (n, sh[0], sh[1], ','.join('{' + ','.join(float(x).hex() for x in v[i * sh[1]:(i + 1) * sh[1]]) + '}' for i in range(sh[0])))


def c_source(cases):
    s = ['#include <math.h>', '#include <stdio.h>', '#include <string.h>',
         'static void put(int k, double x) { unsigned long long b; memcpy(&b, &x, 8); printf("%d %016llx\\n", k, b); }']
    for k, c in enumerate(cases):
        s.append('static void f%d(void) { %s double res; res = %s; put(%d, res); }' % (k, ' '.join(c_decl(n, *v) for n, v in sorted(bind(c).items())), c['text'], k))
    s.append('int main(void) { %s return 0; }' % ' '.join('f%d();' % k for k in range(len(cases))))
    return '\n'.join(s) + '\n'


# ---------------------------------------------------------------- Fortran
def f_num(x):
    s = repr(float(x))
    return '(' + (s.replace('e', 'd') if 'e' in s else s + 'd0') + ')'


def f_name(n):
    return n if n[0].isalpha() else 'F' + n


def f_source(cases):
    s = []
    for k, c in enumerate(cases):
        sh = c['expr']['s']
        s.append('subroutine f%d()' % k)
        s.append('use functionmodule\nimplicit none')
        b = bind(c)
        for n, (q, v) in sorted(b.items()):
            d = '' if q == () else ', dimension(%d,%d)' % (q if len(q) == 2 else (q[0], 1))
            s.append('double precision%s :: %s' % (d, f_name(n)))
        s.append('double precision%s :: res' % ('' if sh[0] == 0 else ', dimension(%d,%d)' % (sh[1], sh[2])))
        s.append('integer :: i, j')
        for n, (q, v) in sorted(b.items()):
            if q == ():
                s.append('%s = %s' % (f_name(n), f_num(v[0])))
            else:
                cols = q[1] if len(q) == 2 else 1
                for p, x in enumerate(v):
                    s.append('%s(%d,%d) = %s' % (f_name(n), p // cols + 1, p % cols + 1, f_num(x)))
        s.append('res = ' + c['text'])
        if sh[0] == 0:
            s.append('write(*,"(I0,1X,Z16.16)") %d, transfer(res, 1_8)' % k)
        else:
            s.append('do i=1,%d\ndo j=1,%d\nwrite(*,"(I0,1X,Z16.16)") %d, transfer(res(i,j), 1_8)\nend do\nend do' % (sh[1], sh[2], k))
        s.append('end subroutine')
    s.append('program main')
    s += ['call f%d()' % k for k in range(len(cases))]
    s.append('end program')
    return '\n'.join(s) + '\n'


def build_run(cases, lang, tag, mod):
    """observations of the cases; None if the program does not compile"""
    d = run.scratch()
    src, exe = os.path.join(d, 'p%s.%s' % (tag, lang)), os.path.join(d, 'p%s.exe' % tag)
    open(src, 'w', encoding='latin1').write(c_source(cases) if lang == 'c' else f_source(cases))
    cmd = ['gcc', '-w', '-O0', '-o', exe, src, '-lm'] if lang == 'c' else \
          ['gfortran', '-w', '-O0', '-ffree-line-length-none', '-I', mod, '-J', mod, '-o', exe, src, os.path.join(mod, 'functionmodule.o')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, r.stdout.decode(errors='replace')
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return None, 'does not terminate'
    finally:
        os.unlink(exe); os.unlink(src)
    out = {}
    for l in r.stdout.decode().splitlines():
        k, h = l.split()
        out.setdefault(int(k), []).append(h)
    if r.returncode:
        return None, 'exit %d' % r.returncode
    return out, ''


def observe(cases, lang, mod=None, size=150):
    """adds 'obs' to every case printed without error"""
    todo = [c for c in cases if not c['errs'] and 'died' not in c]
    def work(job):
        tag, part = job
        out, msg = build_run(part, lang, tag, mod)
        if out is None and len(part) > 1:
            h = max(1, len(part) // 6)
            for i in range(0, len(part), h):
                work((tag, part[i:i + h]))
            return
        for k, c in enumerate(part):
            if out is None:
                c['obs'] = dict(res='err', msg=msg[-600:])
            else:
                v = out.get(k, [])
                sh = c['expr']['s']
                c['obs'] = dict(res='ok', sh=sh, d=[halves_hex(x) for x in v]) if all(finite(x) for x in v) else dict(res='nan', sh=sh)
    jobs = [('%s%d' % (lang, i), todo[i:i + size]) for i in range(0, len(todo), size)]
    with ThreadPoolExecutor(run.NPROC) as ex:
        list(ex.map(work, jobs))
    return cases
