"""Contract language.  One contract text (plain Python over `q`) has two readings:

  SymQ  - symbolic: every q.each(...) becomes proof obligations over the symbolic pre/post state
          produced by interpreting the real function body;
  ConQ  - concrete: the same text evaluated on the values of a real call (replay / bounded check).
"""
import math


# ---------------------------------------------------------------- concrete reading
class ContractError(Exception):
    pass


class Skip(Exception):
    """a spec term is undefined on this input (division by zero, nan): obligation not evaluated"""


class F:
    """concrete scalar: value with the magnitude of the terms that produced it (for tolerances)"""
    __slots__ = ('v', 'm')

    def __init__(self, v, m=None):
        self.v = v
        self.m = abs(v) if m is None else m

    def __repr__(self):
        return 'F(%r)' % self.v

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    def __index__(self):
        return int(self.v)

    def __bool__(self):
        return bool(self.v)

    def __add__(s, o):
        o = _F(o)
        return F(s.v + o.v, s.m + o.m)
    __radd__ = __add__

    def __sub__(s, o):
        o = _F(o)
        return F(s.v - o.v, s.m + o.m)

    def __rsub__(s, o):
        return _F(o) - s

    def __mul__(s, o):
        o = _F(o)
        return F(s.v * o.v, s.m * o.m)
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = _F(o)
        if o.v == 0:
            return F(float('nan'))
        return F(s.v / o.v, s.m * (o.m / abs(o.v)) / abs(o.v))

    def __rtruediv__(s, o):
        return _F(o) / s

    def __neg__(s):
        return F(-s.v, s.m)

    def __pow__(s, n):
        r = F(1.0)
        for _ in range(n):
            r = r * s
        return r

    def __abs__(s):
        return F(abs(s.v), s.m)

    def __lt__(s, o):
        return s.v < _v(o)

    def __le__(s, o):
        return s.v <= _v(o)

    def __gt__(s, o):
        return s.v > _v(o)

    def __ge__(s, o):
        return s.v >= _v(o)

    def __eq__(s, o):
        return s.v == _v(o)

    def __ne__(s, o):
        return s.v != _v(o)

    __hash__ = None


def _F(x):
    return x if isinstance(x, F) else F(float(x))


def _v(x):
    return x.v if isinstance(x, F) else x


class ConArr:
    def __init__(self, a):
        self.a = a
        self.shape = a.shape
        self.size = a.size
        self.isf = a.dtype.kind == 'f'
        self.isb = a.dtype.kind == 'b'

    def __getitem__(self, i):
        if isinstance(i, tuple):
            i = tuple(int(x) for x in i)
        else:
            i = int(i)
            i = (i,)
        for x, n in zip(i, self.shape):
            if x < 0 or x >= n:
                raise Skip()
        x = self.a[i]
        if self.isf:
            return F(float(x))
        if self.isb:
            return bool(x)
        try:
            return int(x)
        except (TypeError, ValueError):
            return x


def conwrap(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return ConArr(x)
    if hasattr(x, 'values') and hasattr(x, 'index'):
        return ConArr(np.asarray(x.values))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return F(float(x))
    if isinstance(x, (tuple, list)):
        return tuple(conwrap(y) for y in x)
    return x


class ConQ:
    symbolic = False

    def __init__(self, old, new, args, ret, dims, rtol=1e-7, atol=1e-9, seed=0, newargs=None):
        self.args, self.ret, self.dims = args, conwrap(ret), dims
        self.newargs = newargs or {}
        self.old = Lookup(lambda k: conwrap(old(k)))
        self.new = Lookup(lambda k: conwrap(new(k)))
        self.rtol, self.atol = rtol, atol
        self.fails = []
        self.checked = {}
        self.skipped = {}
        import random
        self.rnd = random.Random(seed)
        self.anys = {}
        self.scenario = None

    # logic
    @staticmethod
    def And(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not bool(x)

    @staticmethod
    def Imp(a, b):
        return (not bool(a)) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def lazy(c, fa, fb):
        return fa() if c else fb()

    @staticmethod
    def max(a, b):
        return a if a >= b else b

    @staticmethod
    def min(a, b):
        return a if a <= b else b

    @staticmethod
    def abs(a):
        return abs(a)

    def sqrt(self, a):
        return self.fn('SQRT', a)

    @staticmethod
    def fn(name, *a):
        f = _FNS[name]

        def ev(*xs):
            try:
                return f(*xs)
            except (ValueError, OverflowError, ZeroDivisionError):
                return float('nan')
        fs = [_F(x) for x in a]
        xs = [x.v for x in fs]
        y = ev(*xs)
        m = abs(y)
        for j, x in enumerate(fs):
            if x.v != 0 and math.isfinite(x.m):
                xs2 = list(xs)
                xs2[j] = x.v * (1 - 1e-7)
                y2 = ev(*xs2)
                if math.isfinite(y2):
                    m += abs(y2 - y) / 1e-7 * (x.m / abs(x.v))
        if name == 'SQRT' and fs[0].v >= 0:
            e = 1e-12 * fs[0].m
            if math.isfinite(e):
                m += (math.sqrt(fs[0].v + e) - math.sqrt(max(fs[0].v - e, 0.0))) * 1e6
        return F(y, m)

    def pow(self, a, b):
        return self.fn('POW', a, b)

    PI = F(math.pi)

    @staticmethod
    def rat(a, b):
        return F(a / b)

    @staticmethod
    def real(x):
        return F(float(x))

    @staticmethod
    def div(a, b):
        return _F(a) / _F(b)

    @staticmethod
    def div0(a, b):
        return F(0.0) if b == 0 else _F(a) / _F(b)

    def tol(self, a, b, scale):
        m = a.m + b.m + (abs(float(scale)) if scale is not None else 0.0)
        return self.rtol * m + self.atol

    def eq(self, a, b, scale=None):
        a, b = _F(a), _F(b)
        if math.isnan(b.v) or math.isinf(b.v):
            raise Skip()
        if math.isnan(a.v):
            return False
        t = self.tol(a, b, scale)
        if math.isnan(t):
            raise Skip()
        return abs(a.v - b.v) <= t

    def le(self, a, b, scale=None):
        a, b = _F(a), _F(b)
        if math.isnan(b.v):
            raise Skip()
        if math.isnan(a.v):
            return False
        t = self.tol(a, b, scale)
        if math.isnan(t) or math.isinf(t):
            return a.v <= b.v
        return a.v <= b.v + t

    def lt(self, a, b):
        """strict comparison; concretely tolerant (treated as le) so rounding never alarms"""
        return self.le(a, b)

    def ge(self, a, b, scale=None):
        return self.le(b, a, scale)

    @staticmethod
    def same(a, b):
        """exact equality (integers, booleans, copied values)"""
        a, b = _v(a), _v(b)
        try:
            if math.isnan(a) and math.isnan(b):
                return True
        except TypeError:
            pass
        return bool(a == b)

    def sum(self, n, f, lo=0):
        t = F(0.0)
        for i in range(int(lo), int(n)):
            t = t + f(i)
        return t

    def all(self, n, f, lo=0):
        return all(bool(f(i)) for i in range(int(lo), int(n)))

    def any(self, n, f, lo=0):
        return any(bool(f(i)) for i in range(int(lo), int(n)))

    def shape(self, a, ax=0):
        return a.shape[ax]

    def arg(self, name):
        return conwrap(self.args[name])

    def newarg(self, name):
        return conwrap(self.newargs[name])

    def has(self, name):
        return self.args.get(name) is not None

    def item(self, arg, key):
        return conwrap(self.args[arg][key])

    @staticmethod
    def separate(a, b):
        import numpy as np
        return not np.shares_memory(a.a, b.a)

    def dim(self, name):
        return self.dims[name]

    def real_any(self, name):
        """an arbitrary real (symbolically: universally quantified)"""
        if name not in self.anys:
            self.anys[name] = F(self.rnd.uniform(-3, 3))
        return self.anys[name]

    def hint(self, *xs):
        pass

    def solve(self, name, n, A, b, band=None):
        """solution of the linear system A x = b (symbolically: obligations that this is the system the
        code solves)"""
        import numpy as np
        n = int(n)
        M = np.array([[float(_v(A(i, j))) for j in range(n)] for i in range(n)]).reshape(n, n)
        r = np.array([float(_v(b(i))) for i in range(n)])
        if not (np.isfinite(M).all() and np.isfinite(r).all()):
            raise Skip()
        if band is not None:
            for i in range(n):
                for j in range(n):
                    if abs(i - j) > int(band) and M[i, j] != 0:
                        raise Skip()
        c = np.linalg.cond(M) if n else 1.
        if not c < 1e7:
            raise Skip()
        x = np.linalg.solve(M, r)
        self.checked[name] = self.checked.get(name, 0) + 1
        big = float(np.abs(x).max()) if n else 0.
        return [F(float(v), abs(float(v)) + big * c * 1e-6) for v in x]

    def law(self, name, fn, cell):
        return self.And(*fn(self, cell).values())

    def check(self, name, cond, when=None):
        self.each(name, [], lambda: cond() if callable(cond) else cond,
                  when=when if callable(when) else (None if when is None else (lambda: when)))

    def each(self, name, ranges, body, when=None, hints=None):
        self.checked.setdefault(name, 0)
        rs = []
        for r in ranges:
            if isinstance(r, str):
                r = (0, self.dims[r])
            elif not isinstance(r, tuple):
                r = (0, r)
            rs.append(r)

        def rec(pref, rest):
            if not rest:
                try:
                    if when is not None and not when(*pref):
                        return
                    ok = bool(body(*pref))
                except (Skip, ZeroDivisionError, OverflowError):
                    self.skipped[name] = self.skipped.get(name, 0) + 1
                    return
                self.checked[name] += 1
                if not ok and len(self.fails) < 20:
                    self.fails.append((name, tuple(int(x) for x in pref)))
                return
            lo, hi = rest[0]
            try:
                if callable(lo):
                    lo = lo(*pref)
                if callable(hi):
                    hi = hi(*pref)
            except Skip:
                return
            for i in range(int(lo), int(hi)):
                rec(pref + (i,), rest[1:])
        rec((), rs)


def _pow(x, y):
    if x < 0 and y != int(y):
        return float('nan')
    if x == 0 and y < 0:
        return float('nan')
    return x ** y


def _dom(f, ok):
    return lambda x: f(x) if ok(x) else float('nan')


_FNS = {'SQRT': _dom(math.sqrt, lambda x: x >= 0), 'COS': math.cos, 'SIN': math.sin, 'TAN': math.tan,
        'ACOS': _dom(math.acos, lambda x: -1 <= x <= 1), 'ASIN': _dom(math.asin, lambda x: -1 <= x <= 1),
        'ATAN': math.atan, 'LOG': _dom(math.log, lambda x: x > 0), 'LOG10': _dom(math.log10, lambda x: x > 0),
        'EXP': math.exp, 'POW': _pow,
        'ELLIPE': lambda m: _special().ellipe(m), 'ELLIPEINC': lambda t, m: _special().ellipeinc(t, m)}


def _special():
    import scipy.special
    return scipy.special



# ---------------------------------------------------------------- symbolic reading
class SymArr:
    def __init__(self, q, rd, shape, kind, src=None):
        self.q, self.rd, self.shape, self.kind, self.src = q, rd, shape, kind, src

    def __getitem__(self, idx):
        from .core import Unsupported
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(unw(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Unsupported('contract indexes %d-d array with %d indices' % (len(self.shape), len(idx)))
        return V(self.rd(idx))

    @property
    def size(self):
        return V(self.shape[0])

    def __len__(self):
        raise TypeError('use .size')


def unw(x):
    from fractions import Fraction as Fr
    if isinstance(x, V):
        return x.v
    if isinstance(x, float):
        return Fr(repr(x))
    if x.__class__.__module__ == 'numpy':
        return unw(x.item())
    return x


class V:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = unw(v)

    def __repr__(self):
        return 'V(%s)' % (self.v,)

    def __add__(s, o):
        from . import core
        return V(core.add(s.v, unw(o)))

    def __radd__(s, o):
        from . import core
        return V(core.add(unw(o), s.v))

    def __sub__(s, o):
        from . import core
        return V(core.sub(s.v, unw(o)))

    def __rsub__(s, o):
        from . import core
        return V(core.sub(unw(o), s.v))

    def __mul__(s, o):
        from . import core
        return V(core.mul(s.v, unw(o)))

    def __rmul__(s, o):
        from . import core
        return V(core.mul(unw(o), s.v))

    def __truediv__(s, o):
        from . import core
        return V(core.div(s.v, unw(o)))

    def __rtruediv__(s, o):
        from . import core
        return V(core.div(unw(o), s.v))

    def __neg__(s):
        from . import core
        return V(core.neg(s.v))

    def __pow__(s, o):
        r = V(1)
        if isinstance(o, int) and o >= 0:
            for _ in range(o):
                r = r * s
            return r
        raise TypeError('use q.pow')

    def __abs__(s):
        from . import core
        return V(core.vabs(s.v))

    def _c(s, op, o):
        from . import core
        return V(core.cmp(op, s.v, unw(o)))

    def __lt__(s, o):
        return s._c('<', o)

    def __le__(s, o):
        return s._c('<=', o)

    def __gt__(s, o):
        return s._c('>', o)

    def __ge__(s, o):
        return s._c('>=', o)

    def __eq__(s, o):
        return s._c('==', o)

    def __ne__(s, o):
        return s._c('!=', o)

    __hash__ = None

    def __bool__(s):
        from . import core
        c = core.conc(s.v)
        if c is None:
            raise TypeError('symbolic truth value in contract')
        return bool(c)


class Lookup:
    def __init__(self, fn):
        self.fn = fn

    def __getitem__(self, k):
        return self.fn(k)


class SymQ:
    symbolic = True

    def __init__(self, it, old, new, args, ret, dims):
        self.it, self.eng = it, it.eng
        self.old, self.new = Lookup(old), Lookup(new)
        self.args, self._ret, self.dims = args, ret, dims
        self.obls = []          # (name, hyps, goal, hints)
        self.init = {}
        self.scenario = None
        self.hyps = []
        self.hints = []
        self.PI = V(self.eng.PI)

    @property
    def ret(self):
        return self._ret

    @staticmethod
    def And(*xs):
        from . import core
        return V(core.b_and(*[core.truth(unw(x)) for x in xs]))

    @staticmethod
    def Or(*xs):
        from . import core
        return V(core.b_or(*[core.truth(unw(x)) for x in xs]))

    @staticmethod
    def Not(x):
        from . import core
        return V(core.b_not(core.truth(unw(x))))

    @classmethod
    def Imp(cls, a, b):
        return cls.Or(cls.Not(a), b)

    @classmethod
    def Iff(cls, a, b):
        from . import core
        a, b = core.truth(unw(a)), core.truth(unw(b))
        return V(core.cmp('==', a, b))

    @staticmethod
    def ite(c, a, b):
        from . import core
        return V(core.ite(core.truth(unw(c)), unw(a), unw(b)))

    @classmethod
    def lazy(cls, c, fa, fb):
        from . import core
        cc = core.conc(core.truth(unw(c)))
        if cc is not None:
            return fa() if cc else fb()
        return cls.ite(c, fa(), fb())

    @staticmethod
    def app(nm, x):
        """value of the function argument nm at x"""
        import z3
        from .core import REAL, tz
        return V(z3.Function('fn_' + nm, REAL, REAL)(tz(unw(x), 'real')))

    @staticmethod
    def max(a, b):
        from . import core
        return V(core.vmax(unw(a), unw(b)))

    @staticmethod
    def min(a, b):
        from . import core
        return V(core.vmin(unw(a), unw(b)))

    @staticmethod
    def abs(a):
        from . import core
        return V(core.vabs(unw(a)))

    def sqrt(self, a):
        return V(self.eng.fn('SQRT', unw(a)))

    def fn(self, name, *a):
        return V(self.eng.fn(name, *[unw(x) for x in a]))

    def pow(self, a, b):
        return V(self.eng.power(unw(a), unw(b)))

    @staticmethod
    def div(a, b):
        from . import core
        return V(core.div(unw(a), unw(b)))

    @classmethod
    def div0(cls, a, b):
        from . import core
        z = core.cmp('==', unw(b), 0)
        return V(core.ite(z, core.Fr(0), core.div(unw(a), unw(b))))

    @staticmethod
    def eq(a, b, scale=None):
        from . import core
        return V(core.cmp('==', unw(a), unw(b)))

    @staticmethod
    def le(a, b, scale=None):
        from . import core
        return V(core.cmp('<=', unw(a), unw(b)))

    @staticmethod
    def lt(a, b):
        from . import core
        return V(core.cmp('<', unw(a), unw(b)))

    @staticmethod
    def ge(a, b, scale=None):
        from . import core
        return V(core.cmp('>=', unw(a), unw(b)))

    @classmethod
    def same(cls, a, b):
        from . import core
        a, b = unw(a), unw(b)
        return V(core.cmp('==', a, b))

    def sum(self, n, f, lo=0):
        from . import core
        n, lo = unw(n), unw(lo)
        cnt = core.sub(n, lo)
        outer = list(self.eng.loopvars)

        def summ(v, o, idx):
            return core.tz(unw(f(V(core.add(v, lo)))), 'real')
        return V(self.it.new_sum([], 0, summ)((), (), cnt))

    def all(self, n, f, lo=0):
        """bounded universal as a hypothesis-side value is not supported; use each()"""
        from .core import Unsupported
        raise Unsupported('q.all in symbolic mode')

    any = all

    def shape(self, a, ax=0):
        return V(a.shape[ax])

    def arg(self, name):
        return self.wrap(self.args[name])

    def has(self, name):
        return self.args.get(name) is not None

    @staticmethod
    def rat(a, b):
        from fractions import Fraction as Fr
        return V(Fr(a, b))

    @staticmethod
    def real(x):
        return V(float(x))

    def real_any(self, name):
        import z3
        return V(z3.Real('any!' + name))

    def newarg(self, name):
        return self.new['arg.' + name]

    def item(self, arg, key):
        """initial value of entry `key` of a dictionary argument"""
        return self.init['arg_%s.%s' % (arg, key)]

    @staticmethod
    def separate(a, b):
        """the two arrays share no memory"""
        from .core import Unsupported
        if a.src is None or b.src is None:
            raise Unsupported('array of unknown origin')
        return V(a.src != b.src)

    def wrap(self, x):
        from . import core
        if isinstance(x, core.ARRAYS):
            for k in ('arg.' + x.name, x.name):
                if k in self.init:
                    return self.init[k]
            raise core.Unsupported('array argument without initial value')
        if core.is_num(x):
            return V(x)
        return x

    def dim(self, name):
        return V(self.dims[name])

    def hint(self, *xs):
        from . import core
        self.hints.extend(core.tz(unw(x() if callable(x) else x), 'int') for x in xs)

    def solve(self, name, n, A, b, band=None):
        from . import core
        ls = getattr(self.it, 'linsolves', [])
        if len(ls) != 1:
            raise core.Unsupported('%d linear solves recorded' % len(ls))
        rA, rb, rx, m = ls[0]
        N = V(m)

        def mat(i, j):
            return self.eq(V(rA((i.v, j.v))), A(i, j))
        near = None if band is None else (lambda i, j: self.And(i - j <= band, j - i <= band))
        self.each(name + ': size', [], lambda: self.same(N, n))
        self.each(name + ': matrix', [N, N], mat, when=near)
        if band is not None:
            self.each(name + ': nothing outside the band', [N, N], lambda i, j: self.eq(V(rA((i.v, j.v))), 0.0),
                      when=lambda i, j: self.Not(near(i, j)))
        self.each(name + ': right-hand side', [N], lambda i: self.eq(V(rb((i.v,))), b(i)))
        return SymArr(None, rx, (m,), 'real')

    def law(self, name, fn, cell):
        """conjunction of the parts of a law; an uninterpreted predicate of its arguments in contracts that treat laws as opaque"""
        from . import core
        if not getattr(self.it, 'opaque', False):
            return self.And(*fn(self, cell).values())
        import z3
        xs = [core.tz(unw(cell[k])) for k in sorted(cell)]
        xs = [core.tz(x, 'real') if core.kind(x) == 'int' else x for x in xs]
        return V(z3.Function('law!' + name, *([x.sort() for x in xs] + [z3.BoolSort()]))(*xs))

    def check(self, name, cond, when=None):
        self.each(name, [], lambda: cond() if callable(cond) else cond,
                  when=when if callable(when) else (None if when is None else (lambda: when)))

    def each(self, name, ranges, body, when=None, hints=None):
        import z3
        from . import core
        idx = []
        hyps = []
        for n, r in enumerate(ranges):
            if isinstance(r, str):
                r = (0, V(self.dims[r]))
            elif not isinstance(r, tuple):
                r = (0, r)
            lo, hi = r
            if callable(lo):
                lo = lo(*idx)
            if callable(hi):
                hi = hi(*idx)
            v = z3.Int(self.eng.fresh_name('xi!q%d' % n))
            hyps.append(core.b_and(core.cmp('>=', v, unw(lo)), core.cmp('<', v, unw(hi))))
            idx.append(V(v))
        if when is not None:
            hyps.append(core.truth(unw(when(*idx))))
        saved = list(self.hints)
        hs = [i.v for i in idx]
        if hints is not None:
            hs += [core.tz(unw(h), 'int') for h in hints(*idx)]
        goal = core.truth(unw(body(*idx)))
        hs += [h for h in self.hints[len(saved):]]
        self.hints = saved
        self.obls.append((name, [core.tz(h) for h in self.hyps + hyps if core.conc(h) is not True],
                          goal, list(saved) + hs))
