"""pydv core: values, symbolic arrays, heap state, definitional facts, solver front end.

Everything here is over mathematical integers and reals.  Floating point rounding, NaN and
infinities are outside the model (stated in the evidence of every check).
"""
import itertools
import time
from fractions import Fraction as Fr
import z3

INT = z3.IntSort()
REAL = z3.RealSort()
BOOL = z3.BoolSort()
SORTS = {'int': INT, 'real': REAL, 'bool': BOOL}


class Unsupported(Exception):
    """The construct is outside the verifier's dialect (never reported as a violation)."""


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Partial(Poison):
    """A variable that holds `val` when `cond` does and is unbound otherwise."""
    def __init__(self, why, cond, val):
        self.why, self.cond, self.val = why, cond, val


class Opaque:
    """A value the verifier tracks only by identity (strings, dtypes, modules...)."""
    def __init__(self, name, payload=None):
        self.name = name
        self.payload = payload

    def __repr__(self):
        return 'Opaque(%s)' % self.name


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (bool, int, Fr)) or is_sym(v)


def kind(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, Fr):
        return 'real'
    if is_sym(v):
        s = v.sort()
        if s == INT:
            return 'int'
        if s == REAL:
            return 'real'
        if s == BOOL:
            return 'bool'
    raise Unsupported('not a scalar: %r' % (v,))


_tz = {}


def tz(v, k=None):
    """to z3 (optionally coerced to kind k)"""
    if is_sym(v):
        kv = kind(v)
        if k is None or k == kv:
            return v
        if k == 'real' and kv == 'int':
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if k == 'real' and kv == 'bool':
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if k == 'int' and kv == 'bool':
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if k == 'bool':
            return v != 0
        if k == 'int' and kv == 'real':
            raise Unsupported('real used as int')
        raise Unsupported('coercion %s->%s' % (kv, k))
    if isinstance(v, bool):
        if k in (None, 'bool'):
            return z3.BoolVal(v)
        return tz(int(v), k)
    if isinstance(v, int):
        if k in (None, 'int'):
            return z3.IntVal(v)
        if k == 'real':
            return z3.RealVal(v)
        if k == 'bool':
            return z3.BoolVal(v != 0)
    if isinstance(v, Fr):
        if k in (None, 'real'):
            return z3.RealVal(v)
        if k == 'bool':
            return z3.BoolVal(v != 0)
        if k == 'int' and v.denominator == 1:
            return z3.IntVal(v.numerator)
    raise Unsupported('cannot convert %r to %s' % (v, k))


def conc(v):
    """concrete python value of a z3 numeral / bool literal, else None"""
    if not is_sym(v):
        return v if isinstance(v, (bool, int, Fr)) else None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def join_kind(a, b):
    ka, kb = kind(a), kind(b)
    if 'real' in (ka, kb):
        return 'real'
    if 'int' in (ka, kb):
        return 'int'
    return 'bool'


def truth(v):
    """python/numpy truthiness of a scalar as a Bool (concrete or symbolic)"""
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fr)):
        return v != 0
    if is_sym(v):
        if kind(v) == 'bool':
            c = conc(v)
            return v if c is None else c
        c = conc(v)
        if c is not None:
            return c != 0
        return v != tz(0, kind(v))
    raise Unsupported('truth of %r' % (v,))


def b_and(*xs):
    out = []
    for x in xs:
        c = conc(x)
        if c is False:
            return False
        if c is True:
            continue
        if any(x.eq(y) for y in out):
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        c = conc(x)
        if c is True:
            return True
        if c is False:
            continue
        if any(x.eq(y) for y in out):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    c = conc(x)
    if c is not None:
        return not c
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def same(a, b):
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    if is_num(a) and is_num(b):
        return type(a) is type(b) and a == b
    return False


def ite(c, a, b):
    cc = conc(c)
    if cc is not None:
        return a if cc else b
    if same(a, b):
        return a
    k = join_kind(a, b)
    if k == 'bool':
        ca, cb = conc(a), conc(b)
        if ca is True and cb is False:
            return c
        if ca is False and cb is True:
            return b_not(c)
        if cb is False:
            return b_and(c, a)
        if ca is True:
            return b_or(c, b)
    return z3.If(c, tz(a, k), tz(b, k))


def _num(v):
    """bool -> int for arithmetic"""
    if isinstance(v, bool):
        return int(v)
    if is_sym(v) and kind(v) == 'bool':
        return tz(v, 'int')
    return v


def add(a, b):
    a, b = _num(a), _num(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca + cb
    if ca == 0 and kind(b) == join_kind(a, b):
        return b
    if cb == 0 and kind(a) == join_kind(a, b):
        return a
    k = join_kind(a, b)
    return tz(a, k) + tz(b, k)


def sub(a, b):
    a, b = _num(a), _num(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca - cb
    if cb == 0 and kind(a) == join_kind(a, b):
        return a
    k = join_kind(a, b)
    return tz(a, k) - tz(b, k)


def mul(a, b):
    # bool * x  ->  if-then-else (keeps the arithmetic linear)
    if is_sym(a) and kind(a) == 'bool':
        return ite(a, _num(b), 0 if kind(_num(b)) == 'int' else Fr(0))
    if is_sym(b) and kind(b) == 'bool':
        return ite(b, _num(a), 0 if kind(_num(a)) == 'int' else Fr(0))
    a, b = _num(a), _num(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca * cb
    k = join_kind(a, b)
    if ca is not None and ca == 0 or cb is not None and cb == 0:
        return 0 if k == 'int' else Fr(0)
    if ca == 1 and kind(b) == k:
        return b
    if cb == 1 and kind(a) == k:
        return a
    return tz(a, k) * tz(b, k)


def neg(a):
    a = _num(a)
    c = conc(a)
    if c is not None:
        return -c
    return -a


def div(a, b):
    a, b = _num(a), _num(b)
    ca, cb = conc(a), conc(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return Fr(ca) / Fr(cb)
        if cb == 1:
            return tz(a, 'real')
        return tz(a, 'real') * z3.RealVal(Fr(1) / Fr(cb))
    return tz(a, 'real') / tz(b, 'real')


def floordiv(a, b):
    a, b = _num(a), _num(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None and cb != 0:
        r = Fr(ca) // Fr(cb)
        return int(r) if kind(a) == 'int' and kind(b) == 'int' else Fr(r)
    if kind(a) == 'int' and kind(b) == 'int' and cb is not None and cb > 0:
        return a / tz(b)
    raise Unsupported('floor division')


def mod(a, b):
    a, b = _num(a), _num(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None and cb != 0:
        return ca % cb
    if kind(a) == 'int' and kind(b) == 'int' and cb is not None and cb > 0:
        return a % tz(b)
    raise Unsupported('modulo')


def cmp(op, a, b):
    a, b = (a, b) if (kind(a) == 'bool' and kind(b) == 'bool') else (_num(a), _num(b))
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return {'==': ca == cb, '!=': ca != cb, '<': ca < cb, '<=': ca <= cb,
                '>': ca > cb, '>=': ca >= cb}[op]
    k = join_kind(a, b)
    x, y = tz(a, k), tz(b, k)
    if op == '==':
        return True if x.eq(y) else x == y
    if op == '!=':
        return False if x.eq(y) else x != y
    if op == '<':
        return False if x.eq(y) else x < y
    if op == '<=':
        return True if x.eq(y) else x <= y
    if op == '>':
        return False if x.eq(y) else x > y
    if op == '>=':
        return True if x.eq(y) else x >= y
    raise Unsupported('compare ' + op)


def vabs(a):
    a = _num(a)
    c = conc(a)
    if c is not None:
        return abs(c)
    return z3.If(a >= 0, a, -a)


def vmax(a, b):
    return ite(cmp('>=', a, b), _num(a), _num(b))


def vmin(a, b):
    return ite(cmp('<=', a, b), _num(a), _num(b))


# ------------------------------------------------------------------ arrays
_ids = itertools.count(1)


class Arr:
    """A reference to a heap cell holding array contents."""
    __slots__ = ('id', 'kind', 'shape', 'name')

    def __init__(self, knd, shape, name=''):
        self.id = next(_ids)
        self.kind = knd
        self.shape = tuple(shape)
        self.name = name

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return 'Arr(%s:%s%s)' % (self.name or self.id, self.kind, list(self.shape))


class View:
    """A window on an Arr: fwd(view idx)->base idx; inv(base idx)->(cond, view idx)."""
    __slots__ = ('base', 'kind', 'shape', 'fwd', 'inv', 'name')

    def __init__(self, base, shape, fwd, inv):
        if isinstance(base, View):
            f0, i0 = base.fwd, base.inv
            self.base = base.base
            self.fwd = lambda idx, f0=f0, fwd=fwd: f0(fwd(idx))

            def _inv(b, i0=i0, inv=inv):
                c0, v0 = i0(b)
                c1, v1 = inv(v0)
                return b_and(c0, c1), v1
            self.inv = _inv
        else:
            self.base, self.fwd, self.inv = base, fwd, inv
        self.kind = self.base.kind
        self.shape = tuple(shape)
        self.name = self.base.name

    @property
    def ndim(self):
        return len(self.shape)


class MArr:
    """x[mask] : a new array holding the values of x where mask holds.  Represented by a heap cell over the index
    space of x in which only the cells where mask holds mean anything; operations that do not combine cells of the
    same position (or that would need positions) are refused."""
    __slots__ = ('id', 'kind', 'shape', 'name', 'mask')

    def __init__(self, knd, shape, mask, name=''):
        self.id = next(_ids)
        self.kind, self.shape, self.mask, self.name = knd, tuple(shape), mask, name


class MSize:
    """the number of cells of a masked selection"""
    def __init__(self, m):
        self.shape, self.mask = m.shape, m.mask


class MIndex:
    """positions where mask holds; inner: positions counted among the cells of an outer mask"""
    def __init__(self, mask, shape, inner=None):
        self.mask, self.shape, self.inner = mask, shape, inner


ARRAYS = (Arr, View)


class Content:
    """immutable array contents; read(idx) -> scalar"""
    def read(self, idx):
        raise NotImplementedError

    # relative to a base content: has idx been written since `base`?
    def written(self, idx, base):
        if self is base:
            return False
        return self._written(idx, base)

    def _written(self, idx, base):
        return True

    def wread(self, idx, base):
        """value at idx assuming it was written since base"""
        return self.read(idx)

    def points(self, base):
        """list of (guard, idx) for point writes since base, or None if not only points"""
        if self is base:
            return []
        return None

    def cands(self, base):
        """index tuples of point writes since base (None for a component that is not known), to propose which
        iteration wrote a cell; may be incomplete"""
        if self is base:
            return []
        r = []
        for k in ('prev', 'a', 'b'):
            c = getattr(self, k, None)
            if isinstance(c, Content):
                r += c.cands(base)
        if getattr(self, 'idx', None) is not None and isinstance(self.idx, tuple):
            r.append(self.idx)
        return r


class Fun(Content):
    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def read(self, idx):
        key = tuple((i.get_id(), 's') if is_sym(i) else (i, 'c') for i in idx)
        hit = self.memo.get(key)
        if hit is None:
            hit = (self.fn(idx), idx)
            self.memo[key] = hit
        return hit[0]


def idx_eq(a, b):
    return b_and(*[cmp('==', x, y) for x, y in zip(a, b)])


class PointWrite(Content):
    def __init__(self, prev, idx, val, knd):
        self.prev, self.idx, self.val, self.kind = prev, tuple(idx), val, knd

    def read(self, idx):
        c = idx_eq(idx, self.idx)
        if conc(c) is True:
            return self.val
        if conc(c) is False:
            return self.prev.read(idx)
        return ite(c, self.val, self.prev.read(idx))

    def _written(self, idx, base):
        return b_or(idx_eq(idx, self.idx), self.prev.written(idx, base))

    def wread(self, idx, base):
        if self.prev is base:
            return self.val
        return ite(idx_eq(idx, self.idx), self.val, self.prev.wread(idx, base))

    def points(self, base):
        if self is base:
            return []
        p = self.prev.points(base)
        if p is None:
            return None
        return p + [(True, self.idx)]


class RegionWrite(Content):
    def __init__(self, prev, pred, val, full=False):
        self.prev, self.pred, self.val, self.full = prev, pred, val, full
        self.memo = {}

    def read(self, idx):
        key = tuple((i.get_id(), 's') if is_sym(i) else (i, 'c') for i in idx)
        hit = self.memo.get(key)
        if hit is None:
            c = self.pred(idx)
            cc = conc(c)
            if cc is True:
                r = self.val(idx)
            elif cc is False:
                r = self.prev.read(idx)
            else:
                r = ite(c, self.val(idx), self.prev.read(idx))
            hit = (r, idx)
            self.memo[key] = hit
        return hit[0]

    def _written(self, idx, base):
        return b_or(self.pred(idx), self.prev.written(idx, base))

    def wread(self, idx, base):
        if self.prev is base:
            return self.val(idx)
        c = self.pred(idx)
        if conc(c) is True:
            return self.val(idx)
        return ite(c, self.val(idx), self.prev.wread(idx, base))


class IteContent(Content):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, idx):
        return ite(self.c, self.a.read(idx), self.b.read(idx))

    def _written(self, idx, base):
        return ite(self.c, self.a.written(idx, base), self.b.written(idx, base))

    def wread(self, idx, base):
        if self.a is base:
            return self.b.wread(idx, base)
        if self.b is base:
            return self.a.wread(idx, base)
        return ite(self.c, self.a.wread(idx, base), self.b.wread(idx, base))

    def points(self, base):
        pa, pb = self.a.points(base), self.b.points(base)
        if pa is None or pb is None:
            return None
        out = []
        for g, i in pa:
            out.append((b_and(self.c, g), i))
        for g, i in pb:
            out.append((b_and(b_not(self.c), g), i))
        return out


class SObj:
    """A symbolic object instance (self)."""
    def __init__(self, cls, name='self'):
        self.id = next(_ids)
        self.cls = cls
        self.name = name


INITIAL = {}        # contents of every SDict when it was made


class SDict(SObj):
    """A python dict with concrete keys; its contents are st.objs[id] (so that each path has its own)."""
    def __init__(self, st, items=()):
        SObj.__init__(self, None, 'dict')
        st.objs[self.id] = dict(items)
        INITIAL[self.id] = tuple(st.objs[self.id].items())

    def d(self, st):
        if self.id not in st.objs:          # a module constant met first on another path
            st.objs[self.id] = dict(INITIAL[self.id])
        return st.objs[self.id]

    def items_checked(self, st):
        for k, v in self.d(st).items():
            if isinstance(v, Poison):
                raise Unsupported('dict key %r: %s' % (k, v.why))
        return self.d(st)


class SDeque(SObj):
    """A collections.deque with maxlen 3: its contents are st.objs[id] = {0: first, 1:, 2:, 'n': length} (items past the length mean nothing)."""
    MAX = 3

    def __init__(self, st, items, n):
        SObj.__init__(self, None, 'deque')
        st.objs[self.id] = {**dict(enumerate(items)), 'n': n}


class State:
    def __init__(self):
        self.heap = {}
        self.objs = {}
        self.env = {}
        self.pc = []

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.env = dict(self.env)
        s.pc = list(self.pc)
        return s


# ------------------------------------------------------------------ engine-wide registries
class Engine:
    def __init__(self, solver_timeout=10000):
        self.n = itertools.count()
        self.loopvars = []          # enclosing symbolic loop counters (z3 consts)
        self.defs = {}              # decl name -> list of (params, facts builder(args)->list, is_unfold)
        self.inverses = {}
        self.pair_defs = {}         # decl name -> list of fn(args1,args2)->fact
        self.mids = {}              # decl name -> resolver(args)->expr   (loop-entry values)
        self.idefs = {}
        self.pair_limit, self.truncated = 12, False
        self.owners = {}            # decl name -> (trip, written(nu, idx, outer), nouter)
        self.sums = {}              # decl name -> (nparams, trip(args), summand(nu,args))
        self.univ = {}              # decl name -> list of fn(args, h)->fact (instantiated at hint ints)
        self.hints = []             # integer terms used to instantiate universally quantified facts
        self.base_facts = []        # closed facts assumed (preconditions)
        self.timeout = solver_timeout
        self.stats = {'queries': 0, 'solver_s': 0.0}
        self.divisors = []
        self.log = []
        self.cache = {}
        self.realmemo = {}
        self.bounds = []            # in-bounds obligations (pc, cond, where)
        self.math = {}
        self._mathfns()

    # ---- fresh symbols
    def fresh_name(self, base):
        return '%s!%d' % (base, next(self.n))

    def fresh(self, base, knd, extra=()):
        """fresh symbol, a function of the enclosing loop counters (and `extra` terms)"""
        args = list(self.loopvars) + list(extra)
        name = self.fresh_name(base)
        if not args:
            return z3.Const(name, SORTS[knd])
        f = z3.Function(name, *([a.sort() for a in args] + [SORTS[knd]]))
        return f(*args)

    def define(self, app, facts):
        """attach facts (about the fresh term `app`) so every instance of it carries them"""
        params = list(app.children())
        name = app.decl().name()

        def build(args, params=params, facts=facts):
            if not params:
                return list(facts)
            sub = list(zip(params, args))
            return [z3.substitute(f, *sub) for f in facts]
        self.defs.setdefault(name, []).append((build, False))

    # ---- math functions
    def _mathfns(self):
        R = REAL
        self.PI = z3.Real('PI')
        self.base_facts.append(z3.And(self.PI > z3.RealVal('3.14159265358979'),
                                      self.PI < z3.RealVal('3.14159265358980')))

        def mk(name, n=1):
            f = z3.Function(name, *([R] * (n + 1)))
            self.math[name] = f
            return f
        sqrt = mk('SQRT')
        cos, sin, tan = mk('COS'), mk('SIN'), mk('TAN')
        acos, asin, atan = mk('ACOS'), mk('ASIN'), mk('ATAN')
        log, exp, log10 = mk('LOG'), mk('EXP'), mk('LOG10')
        pw = mk('POW', 2)
        PI = self.PI
        D = self.defs

        def d(name, fn, unfold=False):
            D.setdefault(name, []).append((fn, unfold))
        d('SQRT', lambda a: [z3.Implies(a[0] >= 0, z3.And(sqrt(a[0]) >= 0,
                                                          sqrt(a[0]) * sqrt(a[0]) == a[0])),
                             z3.Implies(a[0] > 0, sqrt(a[0]) > 0)])
        d('COS', lambda a: [cos(a[0]) >= -1, cos(a[0]) <= 1])
        d('SIN', lambda a: [sin(a[0]) >= -1, sin(a[0]) <= 1,
                            z3.Implies(z3.And(a[0] >= 0, a[0] <= PI), sin(a[0]) >= 0),
                            z3.Implies(z3.And(a[0] > 0, a[0] < PI), sin(a[0]) > 0)])
        d('ACOS', lambda a: [z3.Implies(z3.And(a[0] >= -1, a[0] <= 1),
                                        z3.And(acos(a[0]) >= 0, acos(a[0]) <= PI)),
                             z3.Implies(z3.And(a[0] >= -1, a[0] < 1), acos(a[0]) > 0),
                             z3.Implies(a[0] == -1, acos(a[0]) == PI),
                             z3.Implies(a[0] == 1, acos(a[0]) == 0),
                             z3.Implies(z3.And(a[0] > -1, a[0] <= 1), acos(a[0]) < PI)])
        d('ASIN', lambda a: [z3.Implies(z3.And(a[0] >= -1, a[0] <= 1),
                                        z3.And(asin(a[0]) >= -PI / 2, asin(a[0]) <= PI / 2)),
                             z3.Implies(a[0] == -1, asin(a[0]) == -PI / 2),
                             z3.Implies(a[0] == 0, asin(a[0]) == 0),
                             z3.Implies(a[0] == 1, asin(a[0]) == PI / 2)])
        d('ATAN', lambda a: [atan(a[0]) > -PI / 2, atan(a[0]) < PI / 2,
                             z3.Implies(a[0] == 0, atan(a[0]) == 0),
                             z3.Implies(a[0] > 0, atan(a[0]) > 0)])
        d('EXP', lambda a: [exp(a[0]) > 0])
        d('POW', lambda a: [z3.Implies(a[0] > 0, pw(a[0], a[1]) > 0),
                            z3.Implies(z3.And(a[0] == 0, a[1] > 0), pw(a[0], a[1]) == 0),
                            z3.Implies(a[1] == 0, pw(a[0], a[1]) == 1),
                            z3.Implies(a[1] == 1, pw(a[0], a[1]) == a[0])])
        # monotonicity / congruence in pairs
        P = self.pair_defs
        P.setdefault('LOG', []).append(lambda a, b: z3.Implies(
            z3.And(a[0] > 0, b[0] > 0), (log(a[0]) < log(b[0])) == (a[0] < b[0])))
        # the tangent lies above the logarithm: a (ln b - ln a) < b - a
        tangent = lambda a, b: z3.Implies(z3.And(a[0] > 0, b[0] > 0, a[0] != b[0]), a[0] * (log(b[0]) - log(a[0])) < b[0] - a[0])
        P.setdefault('LOG', []).append(lambda a, b: z3.And(tangent(a, b), tangent(b, a)))
        P.setdefault('ACOS', []).append(lambda a, b: z3.Implies(
            z3.And(a[0] >= -1, a[0] <= 1, b[0] >= -1, b[0] <= 1),
            (acos(a[0]) < acos(b[0])) == (a[0] > b[0])))

    def fn(self, name, *args):
        f = self.math.get(name)
        if f is None:
            f = self.math[name] = z3.Function(name, *([REAL] * (len(args) + 1)))
        a = [tz(x, 'real') for x in args]
        c = [conc(x) for x in a]
        if name == 'SQRT' and c[0] is not None:
            from math import isqrt
            q = Fr(c[0])
            if q >= 0:
                n, dd = isqrt(q.numerator), isqrt(q.denominator)
                if n * n == q.numerator and dd * dd == q.denominator:
                    return Fr(n, dd)
        if c[0] == 0 and name in ('SIN', 'TAN', 'ASIN', 'ATAN'):
            return Fr(0)
        if c[0] == 0 and name in ('COS', 'EXP'):
            return Fr(1)
        if c[0] == 1 and name in ('LOG', 'LOG10', 'ACOS'):
            return Fr(0)
        return f(*a)

    def power(self, a, b):
        a, b = _num(a), _num(b)
        ca, cb = conc(a), conc(b)
        if cb is not None:
            if isinstance(cb, Fr) and cb.denominator == 1:
                ck = int(cb)
                res = self._ipow(a, ck)
                return tz(res, 'real') if is_sym(res) else Fr(res)
            if isinstance(cb, int):
                return self._ipow(a, cb)
            if ca is not None and ca >= 0 and cb == Fr(1, 2):
                return self.fn('SQRT', a)
            if cb == Fr(1, 2):
                return self.fn('SQRT', a)
            return self.fn('POW', a, b)
        if ca == -1:
            # (-1)**e for e in {0,1}; otherwise unspecified
            k = kind(b)
            zero, one = tz(0, k), tz(1, k)
            return z3.If(b == zero, z3.RealVal(1), z3.If(b == one, z3.RealVal(-1),
                         self.math['POW'](z3.RealVal(-1), tz(b, 'real'))))
        return self.fn('POW', a, b)

    def _ipow(self, a, n):
        if n == 0:
            return 1 if kind(a) == 'int' else Fr(1)
        if n < 0:
            return div(1, self._ipow(a, -n))
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r

    # ---- mid rewriting / instantiation
    def rewrite(self, e):
        """eliminate loop-entry ('mid') symbols"""
        if not is_sym(e) or not self.mids:
            return e
        cache = {}

        def go(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            if z3.is_app(x):
                ch = [go(c) for c in x.children()]
                nm = x.decl().name()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm in self.mids:
                    r = self.mids[nm](ch)
                    if is_sym(r):
                        r = go(tz(r, kind(x)))
                    else:
                        r = tz(r, kind(x))
                elif ch and any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(
                        x, *[(b, a) for a, b in zip(ch, x.children()) if not a.eq(b)])
                else:
                    r = x
            else:
                r = x
            cache[i] = (x, r)
            return r
        return go(e)

    def apps(self, exprs):
        seen = set()
        out = {}
        stack = [e for e in exprs if is_sym(e)]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.setdefault(x.decl().name(), []).append(x)
                stack.extend(x.children())
        return out

    def instantiate(self, exprs, unfold=1, rounds=6, hints=()):
        """close a set of formulas under definitional facts; returns list of extra facts"""
        facts = []
        done = set()
        work = [self.rewrite(e) for e in exprs]
        base = list(work)
        hints = list(hints) + list(self.hints)
        allx = list(work)
        unfold_depth = {}
        for r in range(rounds):
            apps = self.apps(allx)
            new = []
            for nm, xs in apps.items():
                for x in xs:
                    key = (nm, x.get_id())
                    if nm in self.defs:
                        for j, (b, is_unf) in enumerate(self.defs[nm]):
                            k2 = key + (j,)
                            if k2 in done:
                                continue
                            if is_unf and r >= unfold:
                                continue
                            done.add(k2)
                            new.extend(b(x.children()))
                    if nm in self.owners:
                        trip, wr, nout, first = self.owners[nm]
                        ch = x.children()
                        outer, idx = ch[:nout], ch[nout:]
                        for h in hints:
                            k2 = key + ('own', h.get_id())
                            if k2 in done:
                                continue
                            done.add(k2)
                            w = wr(h, idx, outer)
                            own = b_and(x >= 0, x <= h, wr(x, idx, outer)) if first else x == h
                            new.append(tz(b_or(b_not(b_and(h >= 0, cmp('<', h, trip(outer)), w)), own)))
                    if nm in self.univ:
                        for j, f in enumerate(self.univ[nm]):
                            for h in hints:
                                k2 = key + ('u', j, h.get_id())
                                if k2 in done:
                                    continue
                                done.add(k2)
                                new.extend(f(x.children(), h))
                if nm in self.pair_defs and len(xs) > self.pair_limit:
                    self.truncated = True
                elif nm in self.pair_defs:
                    for x, y in itertools.permutations(xs, 2):
                        for j, f in enumerate(self.pair_defs[nm]):
                            k2 = (nm, x.get_id(), y.get_id(), j, 'p')
                            if k2 in done:
                                continue
                            done.add(k2)
                            new.append(f(x.children(), y.children()))
            new = [self.rewrite(tz(f)) for f in new]
            new = [f for f in new if not z3.is_true(f)]
            if not new:
                break
            facts.extend(new)
            allx.extend(new)
        return base, facts

    # ---- solver
    def check_sat(self, formulas, timeout=None, tactic=None):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set('timeout', timeout or self.timeout)
        fl = [tz(f) for f in formulas]
        for f in fl:
            s.add(f)
        for d in self.divs(fl):
            s.add(z3.Implies(d.arg(1) == 0, d == 0))
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r, s

    def divs(self, fl):
        """division terms with a symbolic divisor (total semantics x/0 = 0, the one canon uses)"""
        seen, out, stk = set(), [], list(fl)
        while stk:
            x = stk.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                    out.append(x)
                stk.extend(x.children())
        return out

    def valid(self, pc, goal, timeout=2000, hints=(), unfold=0, cheap=False):
        """quick side-condition validity check: True only if proved"""
        c = conc(goal)
        if c is True:
            return True
        goal = tz(goal)
        fs = [tz(p) for p in pc] + [z3.Not(goal)]
        key = (tuple(f.get_id() for f in fs), tuple(h.get_id() for h in hints), unfold, cheap)
        if key in self.cache:
            return self.cache[key][0]
        base, facts = self.instantiate(fs, unfold=unfold, rounds=4, hints=hints)
        bf = [self.rewrite(f) for f in self.base_facts]
        allf = bf + base + facts
        io = [f for f in allf if not self.has_real(f)]
        r, _ = self.check_sat(io, timeout)
        if r != z3.unsat and len(io) < len(allf) and not cheap:
            r, _ = self.check_sat(allf, timeout)
        self.cache[key] = (r == z3.unsat, fs)
        return r == z3.unsat

    def int_cond(self, e):
        return not self.has_real(e)

    def has_real(self, e):
        """does the formula mention a real-sorted term?  (memoised)"""
        c = self.realmemo
        i = e.get_id()
        if i in c:
            return c[i][0]
        stk = [e]
        seen = set()
        res = False
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            h = c.get(x.get_id())
            if h is not None:
                if h[0]:
                    res = True
                    break
                continue
            if x.sort() == REAL:
                res = True
                break
            stk.extend(x.children())
        c[i] = (res, e)
        return res
