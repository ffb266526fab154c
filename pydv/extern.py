"""Assumed contracts of functions outside /repo (scipy): the only trusted callees."""
from .core import *
from .npshim import lin_solve
import z3
from fractions import Fraction as Fr

USED = {}


def banded(it, args, kw, st):
    """solve_banded((l, u), ab, b): x with A x = b, A[i, j] = ab[u + i - j, j] inside the band, else 0"""
    (lo, up), ab, b = args[:3]
    ra = it.reader(st, ab)

    def rd(idx):
        i, j = idx
        return ite(b_and(cmp('<=', sub(i, j), lo), cmp('<=', sub(j, i), up)), ra((sub(add(up, i), j), j)), Fr(0))
    n = ab.shape[1]
    A = it.alloc(st, 'real', (n, n), Fun(rd))
    return lin_solve(it, A, b, st)


def special(name):
    def f(it, args, kw, st):
        return it.pointwise(st, lambda *x: it.eng.fn(name, *x), *args)
    return f


def copied(it, v, st, deep):
    if v is None or isinstance(v, (str, tuple, frozenset)) or is_num(v):
        return v
    if isinstance(v, ARRAYS):
        rd = it.reader(st, v)
        return it.alloc(st, v.kind, v.shape, Fun(rd), 'copy')
    if isinstance(v, SDict):
        return SDict(st, [(k, copied(it, x, st, True) if deep else x) for k, x in v.items_checked(st).items()])
    raise Unsupported('copy of %r' % (v,))


def clock(it, args, kw, st):
    return z3.Real(it.eng.fresh_name('clock'))


TABLE = {
    'time.time': clock,
    'copy.copy': lambda it, a, kw, st: copied(it, a[0], st, False),
    'copy.deepcopy': lambda it, a, kw, st: copied(it, a[0], st, True),
    'scipy.linalg.solve': lambda it, a, kw, st: lin_solve(it, a[0], a[1], st),
    'scipy.sparse.linalg.spsolve': lambda it, a, kw, st: lin_solve(it, a[0], a[1], st),
    'scipy.linalg.solve_banded': banded,
    'scipy.special.ellipe': special('ELLIPE'),
    'scipy.special.ellipeinc': special('ELLIPEINC'),
}
DOC = {'time.time': 'some number', 'copy.copy': 'a copy with the same contents', 'copy.deepcopy': 'a copy with the same contents',
       'scipy.linalg.solve': 'returns x with A x = b or raises', 'scipy.sparse.linalg.spsolve': 'returns x with A x = b',
       'scipy.linalg.solve_banded': 'returns x with A x = b for the banded matrix stored in diagonal ordered form',
       'scipy.special.ellipe': 'a function of its argument', 'scipy.special.ellipeinc': 'a function of its arguments'}
