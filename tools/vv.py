"""Access to the real code (the extension module built by build.py) and to the
observation functions compiled into it.  Runs inside a worker process."""
import ctypes, json, os, struct, sys
import pymbs.symbolics as S
import pymbs.symbolics.symbolics as X

_lib = ctypes.PyDLL(X.__file__)
_dump = _lib.vv_dump; _dump.restype = ctypes.py_object; _dump.argtypes = [ctypes.py_object]
_op = _lib.vv_op; _op.restype = ctypes.py_object; _op.argtypes = [ctypes.c_char_p, ctypes.py_object]
_graph = _lib.vv_graph; _graph.restype = ctypes.py_object; _graph.argtypes = [ctypes.c_char_p, ctypes.py_object, ctypes.py_object]


def dump(o):
    return json.loads(_dump(o))


def op(name, *args):
    return _op(name.encode(), tuple(args))


def graph(name, g, *args):
    return _graph(name.encode(), g, tuple(args))


def halves(x):
    hi, lo = struct.unpack('>ii', struct.pack('>d', float(x)))
    return [hi, lo]


def lit(x):
    return {'t': 'int' if isinstance(x, int) else 'real', 's': [0, 1, 1], 'v': halves(x)}


def size(t):
    return 1 + sum(size(a) for a in t.get('a', ()))


def perm(rnd, n, k):
    """a constant matrix with +-k at the places of a permutation: added to another one it makes it regular, and a solver has to pivot"""
    p = list(range(n))
    if rnd.random() < .6:
        rnd.shuffle(p)
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        m[i][p[i]] = k * rnd.choice([-1, 1])
    return S.Matrix(m)
