"""pydv interp: symbolic execution of the real Python functions with a sound loop rule.

Loop rule (symbolic trip count): the body is executed once at a generic iteration nu, with every
array/scalar the body modifies replaced by a 'value at loop entry of iteration nu' symbol.
  * arrays whose cells are written by at most one iteration (proved): the final contents are
    characterised cell-wise by the writing iteration (closed form inverse of the write index, or a
    Skolem owner function); loop-entry reads resolve to the final value (if written by an earlier
    iteration) or to the pre-loop value -- so recurrences become equations on the final array;
  * arrays updated by adding an increment independent of their own value (proved): final contents
    are pre + sum over iterations (first-class sum symbols);
  * scalars: constant increment (closed form), sums, or general recurrences;
  * early exit (break/return/while): the number of full iterations T is a Skolem constant with the
    exit condition at T and its negation before T.
Anything else raises Unsupported.
"""
import ast
from fractions import Fraction as Fr
import z3
from .core import *
from .core import _num
from . import loader as L

MAXUNROLL = 16
NP = 'numpy'


class Ret:
    pass


class BoundMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class NPFn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'np.' + self.name


class Builtin:
    def __init__(self, name):
        self.name = name


class SuperRef:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def trip(self):
        st = conc(self.step)
        if st is None or st == 0:
            raise Unsupported('symbolic range step')
        if st > 0:
            d = sub(self.hi, self.lo)
            q = d if st == 1 else floordiv(add(d, st - 1), st)
        else:
            d = sub(self.lo, self.hi)
            q = d if st == -1 else floordiv(add(d, -st - 1), -st)
        return vmax(q, 0)

    def at(self, i):
        return add(self.lo, mul(self.step, i))


class LoopEnv:
    """local variables of a loop, for its invariant"""
    def __init__(self, it, s, pre):
        self.it, self.s, self.pre = it, s, pre

    def __getitem__(self, nm):
        return self.read(self.s, nm)

    def before(self, nm):
        return self.read(self.pre, nm)

    def read(self, s, nm):
        if nm not in s.env:
            raise Unsupported('the invariant speaks of %s' % nm)
        v = s.env[nm]
        if not is_num(v):
            raise Unsupported('the invariant speaks of %s' % nm)
        return v


class IterSpec:
    def __init__(self, trip, at, items=None):
        self.trip, self.at, self.items = trip, at, items


class LinSolve(Content):
    pass


def same_masks(a, b):
    i = tuple(z3.Int('gi!%d' % j) for j in range(len(a.shape)))
    return len(a.shape) == len(b.shape) and all(same(x, y) for x, y in zip(a.shape, b.shape)) and (
        a.mask is b.mask or same(a.mask(i), b.mask(i)))


class Interp:
    def __init__(self, eng, loader, summaries=None, attr_model=None, inline_depth=30):
        self.eng = eng
        self.ld = loader
        self.summaries = summaries or {}
        self.attr_model = attr_model
        self.depth = 0
        self.inline_depth = inline_depth
        self.raises = []
        self.invariants = {}        # function -> invariant of its loop
        self.loop_obls = []
        self.used = set()          # functions whose bodies were interpreted
        self.called_summaries = set()
        self.externals = set()
        self.frames = []
        self.asserts = []
        self.trace_calls = []
        self.check_bounds = False
        self.loop_invs = {}
        self.frozen = set()
        self.births = {}            # id(list) -> (list, path condition when it was made)
        self.approximated = False
        self.stages = None
        self.owned = None
        self.perms = {}
        self.callee_pre = []      # preconditions of callees replaced by their contracts
        self.posmask = {}           # id of an array of positions -> (its contents, the mask they are of)

    # ------------------------------------------------------------ arrays
    def alloc(self, st, knd, shape, content, name=''):
        a = Arr(knd, shape, name)
        st.heap[a.id] = content
        return a

    def alloc_m(self, st, knd, shape, content, mask, name=''):
        a = MArr(knd, shape, mask, name)
        st.heap[a.id] = content
        return a

    def select(self, st, o, mask):
        """o[mask]: a copy of the selected cells"""
        return self.alloc_m(st, o.kind, o.shape, Fun(self.reader(st, o)), mask)

    def reader(self, st, x):
        """snapshot: function idx->scalar for an array-like"""
        if isinstance(x, (Arr, MArr)):
            c = st.heap[x.id]
            return c.read
        if isinstance(x, View):
            c = st.heap[x.base.id]
            return lambda idx, c=c, f=x.fwd: c.read(f(idx))
        raise Unsupported('reader of %r' % (x,))

    def lift(self, st, x):
        """(kind, shape, reader) of an array or scalar (shape None for scalar)"""
        if isinstance(x, ARRAYS):
            return x.kind, x.shape, self.reader(st, x)
        if isinstance(x, (list, tuple)):
            a = self.mk_list(st, x)
            return a.kind, a.shape, self.reader(st, a)
        if is_num(x):
            return kind(x), None, lambda idx: x
        raise Unsupported('operand %r' % (x,))

    def mk_list(self, st, xs, knd=None):
        if xs and all(isinstance(x, (list, tuple)) for x in xs):
            raise Unsupported('nested list array')
        if xs and not all(is_num(x) for x in xs):
            raise Unsupported('list of %r' % (xs[0],))
        ks = [kind(x) for x in xs]
        k = knd or ('real' if ('real' in ks or not ks) else ('int' if 'int' in ks else 'bool'))

        def rd(idx, xs=tuple(xs), k=k):
            i = idx[0]
            ci = conc(i)
            if ci is not None:
                return self.cast(xs[ci], k)
            r = self.cast(xs[-1], k)
            for j in range(len(xs) - 2, -1, -1):
                r = ite(cmp('==', i, j), self.cast(xs[j], k), r)
            return r
        return self.alloc(st, k, (len(xs),), Fun(rd))

    def cast(self, v, k):
        c = conc(v)
        if k == 'real':
            if c is not None:
                return Fr(int(c) if isinstance(c, bool) else c)
            return tz(v, 'real')
        if k == 'int':
            if c is not None:
                return int(c)
            if kind(v) == 'real':
                # truncation toward zero
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return tz(v, 'int')
        if k == 'bool':
            return truth(v)
        raise Unsupported('cast')

    def bshape(self, shapes):
        sh = [s for s in shapes if s is not None]
        if not sh:
            return None
        n = max(len(s) for s in sh)
        out = []
        for ax in range(n):
            dims = []
            for s in sh:
                j = ax - (n - len(s))
                if j >= 0:
                    dims.append(s[j])
            d = dims[0]
            for e in dims:
                if conc(e) != 1:
                    d = e
                    break
            out.append(d)
        return tuple(out)

    def bidx(self, idx, shape, rd):
        if shape is None:
            return rd(None)
        n = len(idx)
        m = len(shape)
        sub_ = []
        for j in range(m):
            i = idx[n - m + j]
            sub_.append(0 if conc(shape[j]) == 1 else i)
        return rd(tuple(sub_))

    def pointwise(self, st, f, *xs):
        """apply scalar f elementwise with broadcasting"""
        if not any(isinstance(x, ARRAYS + (MArr, list)) for x in xs):
            return f(*xs)
        if any(isinstance(x, MArr) for x in xs):
            ms = [x for x in xs if isinstance(x, MArr)]
            m0 = ms[0]
            for m in ms[1:]:
                if not self.same_mask(st, m0, m):
                    raise Unsupported('different masks combined')
            gets = []
            for x in xs:
                if isinstance(x, MArr):
                    gets.append(self.reader(st, x))
                elif is_num(x):
                    gets.append(lambda idx, x=x: x)
                else:
                    raise Unsupported('mask selection with array')

            def g(idx):
                return f(*[h(idx) for h in gets])
            k = kind(g(self.generic_idx(m0.shape)))
            return self.alloc_m(st, k, m0.shape, Fun(g), m0.mask)
        lifted = [self.lift(st, x) for x in xs]
        shape = self.bshape([l[1] for l in lifted])
        if shape is None:
            return f(*[l[2](None) for l in lifted])

        def g(idx):
            return f(*[self.bidx(idx, l[1], l[2]) for l in lifted])
        k = kind(g(self.generic_idx(shape)))
        return self.alloc(st, k, shape, Fun(g))

    def generic_idx(self, shape):
        return tuple(z3.Int('gi!%d' % j) for j in range(len(shape)))

    def same_mask(self, st, a, b):
        if a.mask is b.mask:
            return True
        if not self.same_shape(st, a, b):
            return False
        i = self.generic_idx(a.shape)
        x, y = a.mask(i), b.mask(i)
        if same(x, y):
            return True
        return self.eng.valid(st.pc, tz(x) == tz(y))

    def same_shape(self, st, a, b):
        return len(a.shape) == len(b.shape) and all(
            same(x, y) or self.eng.valid(st.pc, tz(x, 'int') == tz(y, 'int')) for x, y in zip(a.shape, b.shape))

    def norm_idx(self, st, i, n):
        """python index normalisation (negative wraps)"""
        i = _num(i)
        if kind(i) != 'int':
            raise Unsupported('non-integer index')
        c = conc(i)
        if c is not None:
            if c >= 0:
                return c
            return add(n, c)
        if self.nonneg(st, i):
            return i
        return ite(cmp('<', i, 0), add(i, n), i)

    def nonneg(self, st, i):
        # cheap syntactic cases first
        if z3.is_const(i) and i.decl().name().startswith(('nu!', 'gi!', 'xi!')):
            return True
        return self.eng.valid(st.pc, i >= 0, timeout=1500)

    def read(self, st, x, idx):
        if self.check_bounds:
            for i, n in zip(idx, x.shape):
                self.eng.bounds.append((list(st.pc), b_and(cmp('>=', i, 0), cmp('<', i, n)),
                                        x.name or 'array'))
        return self.reader(st, x)(idx)

    def write_point(self, st, x, idx, val):
        if self.check_bounds:
            for i, n in zip(idx, x.shape):
                self.eng.bounds.append((list(st.pc), b_and(cmp('>=', i, 0), cmp('<', i, n)),
                                        x.name or 'array'))
        self.check_writable(x)
        val = self.cast(val, x.kind)
        if isinstance(x, View):
            idx = x.fwd(idx)
            base = x.base
        else:
            base = x
        st.heap[base.id] = PointWrite(st.heap[base.id], idx, val, base.kind)

    def check_writable(self, x):
        if x.name == 'merged' or (x.base if isinstance(x, View) else x).id in self.frozen:
            raise Unsupported('store through a reference that depends on the path taken')

    def write_region(self, st, x, pred, val):
        """x[idx] := val(idx) where pred(idx)   (over x's own index space)"""
        self.check_writable(x)
        knd = x.kind
        if isinstance(x, View):
            inv = x.inv
            shp = x.shape

            def p(b):
                c, v = inv(b)
                return b_and(c, pred(v))

            def va(b):
                _, v = inv(b)
                return self.cast(val(v), knd)
            base = x.base
            st.heap[base.id] = RegionWrite(st.heap[base.id], p, va)
        else:
            st.heap[x.id] = RegionWrite(st.heap[x.id], pred, lambda i: self.cast(val(i), knd))

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, sa, sb, sm):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            pa, pb = (x if isinstance(x, Partial) else Partial('', True, x) if is_num(x) else None for x in (a, b))
            if pa is not None and pb is not None:
                return Partial(pa.why or pb.why, b_or(b_and(c, pa.cond), b_and(b_not(c), pb.cond)), ite(c, pa.val, pb.val))
            return a if isinstance(a, Poison) else b
        if is_num(a) and is_num(b):
            return ite(c, a, b)
        if isinstance(a, ARRAYS) and isinstance(b, ARRAYS) and len(a.shape) == len(b.shape):
            ra, rb = self.reader(sa, a), self.reader(sb, b)
            shape = tuple(x if same(x, y) else ite(c, x, y) for x, y in zip(a.shape, b.shape))
            k = a.kind if a.kind == b.kind else 'real'
            for z in (a, b):
                self.frozen.add((z.base if isinstance(z, View) else z).id)
            return self.alloc(sm, k, shape, Fun(lambda i: ite(c, ra(i), rb(i))), 'merged')
        if isinstance(a, MArr) and isinstance(b, MArr) and a.kind == b.kind and same_masks(a, b):
            ra, rb = self.reader(sa, a), self.reader(sb, b)
            self.frozen.add(a.id), self.frozen.add(b.id)
            return self.alloc_m(sm, a.kind, a.shape, Fun(lambda i: ite(c, ra(i), rb(i))), a.mask, 'merged')
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, sa, sb, sm) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_val(c, x, y, sa, sb, sm) for x, y in zip(a, b)]
        if isinstance(a, SDict) and isinstance(b, SDict):
            da, db = a.d(sa), b.d(sb)
            if list(da) == list(db):
                r = SDict(sm, [(k, self.merge_val(c, da[k], db[k], sa, sb, sm)) for k in da])
                self.frozen.add(a.id), self.frozen.add(b.id), self.frozen.add(r.id)
                return r
        if type(a) is type(b) and isinstance(a, (str, bytes, type(None))) and a == b:
            return a
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
            return a
        if isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name:
            return a
        return Poison('merge of %r and %r' % (a, b))

    def merge(self, c, sa, sb, npc, extra=None):
        """merge two states; c selects sa.  npc: common pc prefix length"""
        sm = State()
        sm.pc = list(sa.pc[:npc])
        ca, cb = b_and(*sa.pc[npc:]), b_and(*sb.pc[npc:])
        disj = b_or(ca, cb)
        if conc(disj) is None:
            # drop the tautology c or not c
            if not (is_sym(ca) and is_sym(cb) and (b_not(ca) is cb or tz(b_not(ca)).eq(tz(cb)) or tz(b_not(cb)).eq(tz(ca)))):
                sm.pc.append(disj)
        ids = set(sa.heap) | set(sb.heap)
        for i in ids:
            x, y = sa.heap.get(i), sb.heap.get(i)
            if x is None or y is None or x is y:
                sm.heap[i] = x if x is not None else y
            else:
                sm.heap[i] = IteContent(c, x, y)
        for i in set(sa.objs) | set(sb.objs):
            x, y = sa.objs.get(i), sb.objs.get(i)
            if i in INITIAL:
                x, y = (dict(INITIAL[i]) if z is None else z for z in (x, y))
            if x is None or y is None:
                sm.objs[i] = dict(x if x is not None else y)
                continue
            d = {}
            if [k for k in x if k in y] != [k for k in y if k in x]:
                # a dict whose key order depends on the path is never iterated (items_checked meets this)
                d['!order'] = Poison('key order depends on the path')
            for k in list(x) + [k for k in y if k not in x]:
                if k in x and k in y:
                    d[k] = self.merge_val(c, x[k], y[k], sa, sb, sm)
                else:
                    d[k] = Poison('attribute %s set on one path only' % k) if not (k.startswith('__in__')) else x.get(k, y.get(k))
                    v = x.get(k, y.get(k))
                    if getattr(v, '_is_input', False):
                        d[k] = v
            sm.objs[i] = d
        for k in set(sa.env) | set(sb.env):
            if k in sa.env and k in sb.env:
                sm.env[k] = self.merge_val(c, sa.env[k], sb.env[k], sa, sb, sm)
            else:
                why, v = 'variable %s set on one path only' % k, sa.env.get(k, sb.env.get(k))
                on = c if k in sa.env else b_not(c)
                if is_num(v):
                    v = Partial(why, True, v)
                sm.env[k] = Partial(why, b_and(on, v.cond), v.val) if isinstance(v, Partial) else Poison(why)
        if extra is not None:
            val = self.merge_val(c, extra[0], extra[1], sa, sb, sm)
            return sm, val
        return sm

    def merge_many(self, outs, npc):
        """outs: list of (state, value) -> (state, value)"""
        s, v = outs[-1]
        for (s2, v2) in reversed(outs[:-1]):
            c = b_and(*s2.pc[npc:])
            if conc(c) is True:
                s, v = s2, v2
                continue
            s, v = self.merge(c, s2, s, npc, (v2, v))
        return s, v

    # ------------------------------------------------------------ statements
    # outcome: (kind, state, value); kinds: normal, return, break, continue, raise
    def block(self, stmts, st):
        outs = []
        cur = st
        for n in stmts:
            res = self.stmt(n, cur)
            norm = [r for r in res if r[0] == 'normal']
            outs.extend(r for r in res if r[0] != 'normal')
            if not norm:
                return outs
            if len(norm) == 1:
                cur = norm[0][1]
            else:
                npc = self.common(norm)
                cur, _ = self.merge_many([(r[1], None) for r in norm], npc)
        outs.append(('normal', cur, None))
        return outs

    def common(self, outs):
        pcs = [o[1].pc for o in outs]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        return n

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(n).__name__)
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('normal', st, None)]
        self.ev(n.value, st)
        return [('normal', st, None)]

    def s_Pass(self, n, st):
        return [('normal', st, None)]

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split('.')[0]] = L.ModRef(a.name if a.asname else a.name.split('.')[0])
        return [('normal', st, None)]

    def s_Global(self, n, st):
        raise Unsupported('global statement')

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        st.env[n.name] = L.FuncRef(n, fr.module, fr.qual + '.<local>.' + n.name, closure=st.env)
        return [('normal', st, None)]

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else None
        return [('return', st, v)]

    def s_Break(self, n, st):
        return [('break', st, None)]

    def s_Continue(self, n, st):
        return [('continue', st, None)]

    def s_Raise(self, n, st):
        self.raises.append(list(st.pc))
        return [('raise', st, None)]

    def s_Assert(self, n, st):
        c = self.as_bool(self.ev(n.test, st), st)
        self.asserts.append((list(st.pc), c))
        if conc(c) is True:
            return [('normal', st, None)]
        if conc(c) is False:
            return [('raise', st, None)]
        st.pc.append(c)
        return [('normal', st, None)]

    def s_Try(self, n, st):
        raise Unsupported('try')

    def s_With(self, n, st):
        raise Unsupported('with')

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported('del')
        return [('normal', st, None)]

    def as_bool(self, v, st):
        if isinstance(v, ARRAYS):
            if all(conc(d) == 1 for d in v.shape):
                return truth(self.reader(st, v)(tuple(0 for _ in v.shape)))
            raise Unsupported('truth value of an array')
        if v is None:
            return False
        if isinstance(v, (str, list, tuple)):
            return len(v) > 0
        if isinstance(v, SDict):
            return len(v.items_checked(st)) > 0
        if isinstance(v, (Opaque, SObj, L.FuncRef, BoundMethod)):
            return True
        return truth(v)

    def decide(self, c, st):
        """concrete truth of c under the path condition, or None"""
        cc = conc(c)
        if cc is not None:
            return cc
        s = z3.simplify(tz(c))
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.closed_cond(s):
            if self.eng.valid(st.pc, s, timeout=1000):
                return True
            if self.eng.valid(st.pc, z3.Not(s), timeout=1000):
                return False
        return None

    def closed_cond(self, e):
        """condition over 0-ary integer/boolean constants only"""
        stk, n = [e], 0
        while stk:
            x = stk.pop()
            n += 1
            if n > 40 or x.sort() == REAL:
                return False
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                return False
            stk.extend(x.children())
        return True

    def s_If(self, n, st):
        c = self.as_bool(self.ev(n.test, st), st)
        d = self.decide(c, st)
        if d is True:
            return self.block(n.body, st)
        if d is False:
            return self.block(n.orelse, st)
        npc = len(st.pc)
        sa, sb = st.copy(), st
        sa.pc.append(c)
        sb.pc.append(b_not(c))
        ra = self.block(n.body, sa)
        rb = self.block(n.orelse, sb) if n.orelse else [('normal', sb, None)]
        na = [r for r in ra if r[0] == 'normal']
        nb = [r for r in rb if r[0] == 'normal']
        outs = [r for r in ra + rb if r[0] != 'normal']
        if na and nb:
            outs.append(('normal', self.merge(c, na[0][1], nb[0][1], npc), None))
        elif na:
            outs.append(na[0])
        elif nb:
            outs.append(nb[0])
        return outs

    def s_Assign(self, n, st):
        try:
            v = self.ev(n.value, st)
        except Unsupported as e:
            # a call-free right-hand side bound to plain names has no effect besides the binding: an unused
            # binding need not be understood (any use of the name raises)
            if all(isinstance(t, ast.Name) for t in n.targets) and not any(
                    isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n.value)):
                v = Poison(str(e))
            else:
                raise
        for t in n.targets:
            self.assign(t, v, st)
        return [('normal', st, None)]

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)
        return [('normal', st, None)]

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            v = self.ev(n.value, st)
            if isinstance(cur, ARRAYS + (MArr,)):
                self.inplace(cur, n.op, v, st)
            else:
                st.env[t.id] = self.binop(n.op, cur, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st)
            v = self.ev(n.value, st)
            if isinstance(cur, ARRAYS + (MArr,)):
                self.inplace(cur, n.op, v, st)
            else:
                self.setattr(o, t.attr, self.binop(n.op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            cur = self.getitem(o, i, st)
            v = self.ev(n.value, st)
            self.setitem(o, i, self.binop(n.op, cur, v, st), st)
        else:
            raise Unsupported('augmented target')
        return [('normal', st, None)]

    def inplace(self, cur, op, v, st):
        r = self.binop(op, cur, v, st)
        if isinstance(cur, MArr) or isinstance(r, MArr):
            self.setitem(cur, slice(None), r, st)
            return
        rd = self.reader(st, r)
        self.write_region(st, cur, lambda i: True, rd)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st)
            for a, b in zip(t.elts, vals):
                self.assign(a, b, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.setitem(o, i, v, st)
        else:
            raise Unsupported('assignment target ' + type(t).__name__)

    def unpack(self, v, n, st):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise Unsupported('unpack arity')
            return list(v)
        if isinstance(v, ARRAYS) and conc(v.shape[0]) == n:
            return [self.getitem(v, i, st) for i in range(n)]
        raise Unsupported('unpack of %r' % (v,))

    # ------------------------------------------------------------ loops
    def iterspec(self, v, st):
        if isinstance(v, RangeVal):
            return IterSpec(v.trip(), v.at)
        if isinstance(v, (list, tuple)):
            vs = list(v)

            def at(i):
                c = conc(i)
                if c is None:
                    raise Unsupported('symbolic index of python list')
                return vs[c]
            return IterSpec(len(vs), at, vs)
        if isinstance(v, SDict):
            return self.iterspec(list(v.items_checked(st)), st)
        if isinstance(v, ARRAYS):
            if len(v.shape) == 1:
                rd = self.reader(st, v)
                return IterSpec(v.shape[0], lambda i: rd((i,)))
            raise Unsupported('iterate 2d array')
        if isinstance(v, tuple) is False and isinstance(v, Opaque) and v.name == 'iter':
            return v.payload
        raise Unsupported('iteration over %r' % (v,))

    def s_For(self, n, st):
        it = self.iterspec(self.ev(n.iter, st), st)
        if n.orelse:
            raise Unsupported('for-else')
        inv = self.invariants.get(self.frames[-1].qual) if self.frames else None
        if inv is not None:
            return self.inv_loop(st, it.trip, lambda s, nu: self.assign(n.target, it.at(nu), s), n.body, None, inv)
        if self.owned is not None and not self.eng.loopvars and (same(it.trip, self.owned[0]) or same(it.trip, ite(cmp('<=', 0, self.owned[0]), self.owned[0], 0))):
            return self.owned_loop(st, it.trip, lambda s, nu: self.assign(n.target, it.at(nu), s), n.body)
        tc = conc(it.trip)
        if tc is not None and tc <= (MAXUNROLL if it.items is None else 64):
            outs = []
            cur = [st]
            brk = []
            for j in range(tc):
                if not cur:
                    break
                s = cur[0]
                self.assign(n.target, it.at(j), s)
                res = self.block(n.body, s)
                cont = [r for r in res if r[0] in ('normal', 'continue')]
                brk += [r for r in res if r[0] == 'break']
                outs += [r for r in res if r[0] in ('return', 'raise')]
                if not cont:
                    cur = []
                elif len(cont) == 1:
                    cur = [cont[0][1]]
                else:
                    cur = [self.merge_many([(r[1], None) for r in cont], self.common(cont))[0]]
            fin = brk + [('normal', s, None) for s in cur]
            if fin:
                if len(fin) == 1:
                    outs.append(('normal', fin[0][1], None))
                else:
                    outs.append(('normal', self.merge_many([(r[1], None) for r in fin], self.common(fin))[0], None))
            return outs
        return self.sym_loop(st, it.trip,
                             lambda s, nu: self.assign(n.target, it.at(nu), s),
                             n.body, None)

    def s_While(self, n, st):
        if n.orelse:
            raise Unsupported('while-else')
        inv = self.invariants.get(self.frames[-1].qual) if self.frames else None
        if inv is not None:
            return self.inv_loop(st, None, lambda s, nu: None, n.body, n.test, inv)
        c0 = self.decide(self.as_bool(self.ev(n.test, st.copy()), st), st)
        if c0 is False:
            return [('normal', st, None)]
        # try concrete unrolling when the condition is concretely decidable each time
        return self.sym_loop(st, None, lambda s, nu: None, n.body, n.test)

    def run_body(self, s, test, body):
        """one iteration; the loop test (while) acts as `if not test: break` at the top"""
        outs = []
        if test is not None:
            c = self.as_bool(self.ev(test, s), s)
            d = self.decide(c, s)
            if d is False:
                return [('break', s, None)]
            if d is None:
                sb = s.copy()
                sb.pc.append(b_not(c))
                outs.append(('break', sb, None))
                s.pc.append(c)
        return outs + self.block(body, s)

    def inv_loop(self, st, trip, bind, body, test, inv):
        """a loop by its invariant: it holds at entry, every iteration keeps it, and only it is known of what the loop changes"""
        eng, pre = self.eng, st
        if eng.loopvars:
            raise Unsupported('loop invariant inside a loop')
        env = lambda s: LoopEnv(self, s, pre)
        say = lambda what, s, cs: self.loop_obls.extend(('%s: %s' % (what, nm), list(s.pc), c, []) for nm, c in cs)
        say('at entry', pre, inv['keep'](env(pre)))
        mods, arrs, mark = {}, {}, len(self.loop_obls)

        def havoc(s):
            for key, k in mods.items():
                self.set_key(s, key, eng.fresh('inv_%s' % key[-1], k))
            for i, (k, nd) in arrs.items():
                f = z3.Function(eng.fresh_name('inv_%d' % i), *([INT] * nd + [SORTS[k]]))
                s.heap[i] = Fun(lambda idx, f=f: f(*[tz(x, 'int') for x in idx]))
            for nm, c in inv['keep'](env(s)):
                s.pc.append(c)
        for attempt in range(8):
            del self.loop_obls[mark:]
            s = pre.copy()
            nu = eng.fresh('nu', 'int')
            s.pc.append(b_and(cmp('>=', nu, 0), cmp('<', nu, trip) if trip is not None else True))
            havoc(s)
            mid = s.copy()
            bind(s, nu)
            outs = self.run_body(s, test, body)
            was = (dict(mods), dict(arrs))
            for _, s2, _ in outs:
                for i, c in s2.heap.items():
                    if i in pre.heap and c is not mid.heap[i]:
                        inf = self.arr_by_id(i, pre)
                        arrs[i] = (inf[0], inf[2])
                for where, d, d0 in [(('env',), s2.env, pre.env)] + [(('obj', o), d, pre.objs[o]) for o, d in s2.objs.items() if o in pre.objs]:
                    for nm, v in d.items():
                        if nm not in d0:
                            continue
                        key = where + (nm,)
                        cur = self.get_key(mid, key)
                        if v is cur:
                            continue
                        if not (is_num(v) and is_num(d0[nm])):
                            raise Unsupported('loop with an invariant changes %s' % nm)
                        if not same(v, cur):
                            mods[key] = 'real' if 'real' in (kind(v), kind(d0[nm])) else kind(v)
            if was == (mods, arrs):
                break
        else:
            raise Unsupported('loop analysis did not stabilise')
        res = []
        for k, s2, v in outs:
            if k in ('normal', 'continue'):
                say('kept', s2, inv['keep'](env(s2)))
            else:
                if 'exit' in inv and k != 'raise':
                    say('on leaving the loop', s2, inv['exit'](env(s2)))
                res.append(('normal' if k == 'break' else k, s2, v))
        if trip is not None:
            s = pre.copy()
            havoc(s)
            res.append(('normal', s, None))
        norm = [r for r in res if r[0] == 'normal']
        rest = [r for r in res if r[0] != 'normal']
        if len(norm) > 1:
            norm = [('normal', self.merge_many([(r[1], None) for r in norm], self.common(norm))[0], None)]
        return rest + norm

    def owned_loop(self, st, trip, bind, body):
        """a loop over superlinks that touches the cells of its own superlink only: iteration k finds them as they were
        before the loop, whatever it finds elsewhere it may not rely on, and it is an obligation that it writes nowhere else"""
        eng, pre = self.eng, st
        nu = z3.Int(eng.fresh_name('nu'))
        W, junk = {}, {}
        npc = len(pre.pc)
        mark = len(self.callee_pre)
        for attempt in range(6):
            del self.callee_pre[mark:]
            s = pre.copy()
            s.pc.append(b_and(cmp('>=', nu, 0), cmp('<', nu, trip)))
            eng.loopvars = [nu]
            eng.hints.append(nu)
            entry = {}
            try:
                for i, own in W.items():
                    if i not in junk:
                        k, _, nd = self.arr_by_id(i, pre)
                        junk[i] = z3.Function(eng.fresh_name('junk_%s' % (self.arr_by_id(i, pre)[1] or i)), *([INT] * (1 + nd) + [SORTS[k]]))
                    f, c0 = junk[i], pre.heap[i]
                    s.heap[i] = entry[i] = Fun(lambda idx, f=f, c0=c0, own=own: ite(cmp('==', own(idx), nu), c0.read(idx), f(nu, *[tz(x, 'int') for x in idx])))
                bind(s, nu)
                outs = self.run_body(s, None, body)
            finally:
                eng.loopvars = []
                eng.hints.pop()
            if any(k not in ('normal', 'continue', 'raise') for k, _, _ in outs):
                raise Unsupported('loop over superlinks left early')
            cont = [r for r in outs if r[0] != 'raise']
            if not cont:
                raise Unsupported('loop body never completes')
            was = set(W)
            for _, s2, _ in cont:
                for i, c in s2.heap.items():
                    if i in pre.heap and c is not (entry[i] if i in entry else pre.heap[i]):
                        if i not in W:
                            W[i] = self.owned[1](pre, i)
                for where, d, d0 in [(('env',), s2.env, pre.env)] + [(('obj', o), d, pre.objs[o]) for o, d in s2.objs.items() if o in pre.objs]:
                    if any(nm in d0 and v is not d0[nm] and not (is_num(v) and is_num(d0[nm]) and same(v, d0[nm])) for nm, v in d.items()):
                        raise Unsupported('loop over superlinks carries a variable')
            if was == set(W):
                break
        else:
            raise Unsupported('loop analysis did not stabilise')
        sN = cont[0][1] if len(cont) == 1 else self.merge_many([(r[1], None) for r in cont], self.common(cont))[0]
        sF = pre.copy()
        for i, own in W.items():
            k, nm, nd = self.arr_by_id(i, pre)
            g = tuple(eng.fresh('gi', 'int') for _ in range(nd))
            self.loop_obls.append(('only the part of its own superlink is written: %s' % (nm or i), list(sN.pc) + [self.owned[2](pre, i, g), cmp('!=', own(g), nu)],
                                   cmp('==', sN.heap[i].read(g), entry[i].read(g)), [own(g), nu]))

            # the final value of a cell, by name: what the iteration of its superlink leaves there
            ts = [z3.Int(eng.fresh_name('t')) for _ in range(nd)]
            app = eng.fresh('left_%s' % (nm or i), k, ts)
            eng.define(app, [app == self.subst(tz(sN.heap[i].read(tuple(ts))), [(nu, tz(own(tuple(ts)), 'int'))])])
            sF.heap[i] = Fun(lambda idx, app=app, ts=ts: z3.substitute(app, *[(t, tz(x, 'int')) for t, x in zip(ts, idx)]))
        for nm, v in sN.env.items():
            if nm not in pre.env:
                sF.env[nm] = Poison('loop temporary %s' % nm)
        return [('normal', sF, None)]

    def sym_loop(self, st, trip, bind, body, test):
        eng = self.eng
        outer = list(eng.loopvars)
        nu = z3.Int(eng.fresh_name('nu'))
        pre = st
        npc = len(pre.pc)
        W = set()               # array ids
        WS = {}                 # scalar keys -> kind  (('env',name) or ('obj',id,attr))
        reb = {}                # rebound references
        midA, midS = {}, {}
        nstage = len(self.stages.obls) if self.stages is not None else 0
        for attempt in range(8):
            s = pre.copy()
            if self.stages is not None:
                del self.stages.obls[nstage:]       # those of the last attempt count
            s.pc.append(b_and(nu >= 0, cmp('<', nu, trip) if trip is not None else True))
            eng.loopvars = outer + [nu]
            entry = {}
            try:
                for i in W:
                    if i not in midA:
                        c = pre.heap[i]
                        arr = self.arr_by_id(i, pre)
                        f = z3.Function(eng.fresh_name('mid_%s' % (arr[1] or i)),
                                        *([INT] * (len(outer) + 1 + arr[2]) + [SORTS[arr[0]]]))
                        midA[i] = f
                    f = midA[i]
                    fc = Fun(lambda idx, f=f: f(*(outer + [nu] + [tz(x, 'int') for x in idx])))
                    entry[i] = fc
                    s.heap[i] = fc
                for key, k in WS.items():
                    if key not in midS:
                        midS[key] = z3.Function(eng.fresh_name('mids_%s' % key[-1]),
                                                *([INT] * (len(outer) + 1) + [SORTS[k]]))
                    self.set_key(s, key, midS[key](*(outer + [nu])))
                for key, how in reb.items():
                    if key[0] == 'env' or key[1] in s.objs:
                        self.set_key(s, key, self.rebound(s, key, how))
                bind(s, nu)
                outs = self.run_body(s, test, body)
            finally:
                eng.loopvars = outer
            # collect modified
            newW, newS = set(), {}
            oldreb = dict(reb)
            cont = [r for r in outs if r[0] in ('normal', 'continue')]
            exits = [r for r in outs if r[0] in ('break', 'return')]
            for _, s2, _ in cont + exits:
                for i, c in s2.heap.items():
                    if i in pre.heap and c is not (entry[i] if i in W else pre.heap[i]):
                        newW.add(i)
                for nm, v in s2.env.items():
                    self.scan_scalar(('env', nm), v, pre, pre.env, WS, newS, reb)
                for oid, d in s2.objs.items():
                    if oid in pre.objs:
                        for a, v in d.items():
                            self.scan_scalar(('obj', oid, a), v, pre, pre.objs[oid], WS, newS, reb)
            grew = (newW - W) or reb != oldreb or any(k not in WS or WS[k] != v for k, v in newS.items())
            W |= newW
            for k, v in newS.items():
                if k in WS and WS[k] != v:
                    midS.pop(k, None)
                WS[k] = v
            if not grew:
                break
        else:
            raise Unsupported('loop analysis did not stabilise')
        if not cont:
            raise Unsupported('loop body never completes')
        # --- full-iteration effect (non-exit path)
        if len(cont) == 1:
            sN = cont[0][1]
        else:
            sN, _ = self.merge_many([(r[1], None) for r in cont], self.common(cont))
        body_pc = b_and(*sN.pc[npc:])      # includes range of nu, and absence of exit
        has_exit = bool(exits)
        if has_exit:
            T = eng.fresh('T', 'int')
        else:
            T = tz(trip, 'int')
        lo_facts = []

        def inrange(v):
            return b_and(cmp('>=', v, 0), cmp('<', v, T))
        # hypotheses available for a generic full iteration
        hyp = list(pre.pc) + [b_and(nu >= 0, nu < tz(T, 'int'))] + list(sN.pc[npc:])
        # --- scalars
        finals = {}
        for key, k in WS.items():
            f = midS[key]
            mid = f(*(outer + [nu]))
            post = self.get_key(sN, key)
            prev = self.get_key(pre, key)
            if isinstance(post, Poison) or not is_num(post):
                finals[key] = Poison('loop-carried %s' % (key,))
                continue
            post = self.cast(post, k)
            prev = self.cast(prev, k)
            finals[key] = self.scalar_rule(key, k, f, mid, post, prev, outer, nu, T)
        # --- arrays
        posts = {}
        for i in W:
            posts[i] = self.array_rule(i, pre, sN, entry[i], midA[i], outer, nu, T, hyp,
                                       [midA[j] for j in W] + [midS[j] for j in WS])
        # --- state after all T full iterations
        sF = pre.copy()
        for i, c in posts.items():
            sF.heap[i] = c
        for key in WS:
            v = finals[key]
            self.set_key(sF, key, v[0] if isinstance(v, tuple) else v)
        for key in reb:
            self.set_key(sF, key, self.rebound(sF, key, reb[key]))
        for _, s2, _ in cont + exits:
            for oid, d in s2.objs.items():
                if oid in pre.objs:
                    for a in d:
                        if a not in pre.objs[oid]:
                            sF.objs[oid][a] = Poison('attribute %s set in a loop' % (a,))
        # temporaries first defined in the loop: value of the last iteration
        lastmap = [(nu, tz(T, 'int') - 1)]
        for nm, v in sN.env.items():
            if nm not in pre.env and ('env', nm) not in WS:
                if is_num(v):
                    sF.env[nm] = z3.substitute(tz(v), *lastmap) if is_sym(v) else v
                else:
                    sF.env[nm] = Poison('loop temporary %s' % nm)
        # heap cells allocated in the body stay available only through poisoned names
        tpos = [cmp('>=', T, 0)]
        if trip is not None:
            tpos.append(cmp('<=', T, trip))
        if not has_exit:
            return [('normal', sF, None)]
        # --- early exit
        if trip is None:
            eng.define(tz(T), [tz(b_and(*tpos))])
        else:
            eng.define(tz(T), [tz(b_and(*tpos))])
        # for every full iteration h<T the body completed normally
        nb = tz(b_and(*sN.pc[npc + 1:]))
        params = list(tz(T).children())

        def univ(args, h, nb=nb, params=params, T=T):
            e = z3.substitute(nb, (nu, h), *list(zip(params, args)))
            Tt = tz(T).decl()(*args) if args else tz(T)
            return [z3.Implies(z3.And(h >= 0, h < Tt), e)]
        eng.univ.setdefault(tz(T).decl().name(), []).append(univ)
        # T>=1: instantiate at T-1
        eng.define(tz(T), [z3.Implies(tz(T) >= 1, z3.substitute(nb, (nu, tz(T) - 1)))])
        outs2 = []
        sX = sF.copy()
        if trip is not None:
            sE = sF.copy()
            sE.pc.append(cmp('==', T, trip))
            outs2.append(('normal', sE, None))
            sX.pc.append(cmp('<', T, trip))
        bind(sX, tz(T))
        res = self.run_body(sX, test, body)
        for r in res:
            if r[0] == 'break':
                outs2.append(('normal', r[1], None))
            elif r[0] in ('return', 'raise'):
                outs2.append(r)
            # normal/continue at T is impossible by definition of T
        norm = [r for r in outs2 if r[0] == 'normal']
        rest = [r for r in outs2 if r[0] != 'normal']
        if len(norm) > 1:
            sm, _ = self.merge_many([(r[1], None) for r in norm], self.common(norm))
            norm = [('normal', sm, None)]
        return rest + norm

    def arr_by_id(self, i, st):
        inf = self.arrinfo.get(i)
        if inf is None:
            raise Unsupported('unknown array %d' % i)
        return inf

    @property
    def arrinfo(self):
        return _ArrInfo

    def rebound(self, s, key, how):
        """value of a reference that a loop rebinds, at the start of an unknown iteration / after the loop"""
        if how is True:
            return Poison('rebound in loop: %s' % (key,))
        a = self.havoc_array(s, how[1], how[2], 'reb_%s' % key[-1])
        self.frozen.add(a.id)       # it may be any of several arrays
        self.approximated = True
        return a

    def havoc_array(self, s, knd, shape, name):
        """an array of unknown contents"""
        outer = list(self.eng.loopvars)
        f = z3.Function(self.eng.fresh_name(name), *([INT] * (len(outer) + len(shape)) + [SORTS[knd]]))
        return self.alloc(s, knd, shape, Fun(lambda idx: f(*(outer + [tz(x, 'int') for x in idx]))), name)

    def scan_scalar(self, key, v, pre, penv, WS, newS, reb):
        nm = key[-1]
        if nm not in penv:
            return
        p = penv[nm]
        if v is p:
            return
        if is_num(v) and is_num(p):
            if same(v, p):
                return
            kv, kp = kind(v), kind(p)
            k = kv if kv == kp else ('real' if 'real' in (kv, kp) else 'int')
            if key in WS and is_sym(v) and z3.is_app(v) and v.decl().name().startswith('mids_') and \
                    v.decl().name() == getattr(self, '_midname', {}).get(key):
                return
            newS[key] = k if key not in WS else (WS[key] if WS[key] == k or k == 'int' else 'real')
            return
        def note(how):
            reb[key] = how if reb.get(key, how) == how else True
        if isinstance(v, Poison) or isinstance(p, Poison):
            note(True)
            return
        if isinstance(v, ARRAYS) and isinstance(p, ARRAYS) and len(v.shape) == len(p.shape) and \
                all(same(x, y) for x, y in zip(v.shape, p.shape)):
            note(('array', v.kind if v.kind == p.kind else 'real', p.shape))
            return
        if type(v) is type(p) and isinstance(v, (str, type(None))) and v == p:
            return
        note(True)

    def get_key(self, s, key):
        if key[0] == 'env':
            return s.env[key[1]]
        return s.objs[key[1]][key[2]]

    def set_key(self, s, key, v):
        if key[0] == 'env':
            s.env[key[1]] = v
        else:
            s.objs[key[1]][key[2]] = v

    def has_decl(self, e, decls):
        if not is_sym(e):
            return False
        seen = set()
        stk = [e]
        names = {d.name() for d in decls}
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                    return True
                stk.extend(x.children())
        return False

    def only_at(self, e, f, mid):
        """every application of f in e is the term mid"""
        seen, stk = set(), [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().eq(f):
                    if not x.eq(mid):
                        return False
                    continue
                stk.extend(x.children())
        return True

    def scalar_rule(self, key, k, f, mid, post, prev, outer, nu, T):
        eng = self.eng
        name = f.name()
        if not self.has_decl(post, [f]):
            # overwritten each iteration
            fin = ite(cmp('>=', T, 1), self.cast(z3.substitute(tz(post), (nu, tz(T, 'int') - 1)), k), prev)
            lam = tz(post)

            def res(args, lam=lam, prev=prev, no=len(outer)):
                o, v = args[:no], args[no]
                sb = list(zip(outer, o)) + [(nu, v - 1)]
                return ite(cmp('<=', v, 0), self.subst(prev, list(zip(outer, o))),
                           self.cast(z3.substitute(lam, *sb), k))
            eng.mids[name] = res
            return fin
        if k in ('int', 'real'):
            inc = z3.simplify(tz(post) - mid, som=True)
            if self.has_decl(inc, [f]):
                # post - mid independent of mid?  (increments under conditions)
                m1, m2 = z3.Const(eng.fresh_name('m1'), SORTS[k]), z3.Const(eng.fresh_name('m2'), SORTS[k])
                at = lambda m: self.replace_fn(tz(post, k), name, lambda ch: m)
                if self.only_at(tz(post), f, mid) and eng.valid([], at(m1) - m1 == at(m2) - m2, timeout=3000):
                    inc = z3.simplify(at(tz(0, k)), som=True)
            if not self.has_decl(inc, [f]):
                ci = conc(inc)
                if ci is not None or not self.depends(inc, nu):
                    def res(args, inc=inc, prev=prev, no=len(outer)):
                        o, v = args[:no], args[no]
                        sb = list(zip(outer, o))
                        return add(self.subst(prev, sb), mul(self.subst(inc, sb), v if k == 'int' else tz(v, 'real')))
                    eng.mids[name] = res
                    return add(prev, mul(inc if ci is None else ci, tz(T, 'int') if k == 'int' else tz(T, 'real')))
                # partial sums
                psum = self.new_sum(outer, 0, lambda v, args, idx, inc=inc: self.subst(inc, list(zip(outer, args)) + [(nu, v)]), k)

                def res(args, prev=prev, no=len(outer)):
                    o, v = args[:no], args[no]
                    return add(self.subst(prev, list(zip(outer, o))), psum(o, (), v))
                eng.mids[name] = res
                return add(prev, psum(outer, (), tz(T, 'int')))
        # general recurrence S(0)=prev, S(v)=post[nu:=v-1]
        g = z3.Function(eng.fresh_name('rec_%s' % key[-1]), *([INT] * (len(outer) + 1) + [SORTS[k]]))

        def res(args):
            return g(*args)
        eng.mids[name] = res
        lam = tz(post, k)
        p0 = tz(prev, k)

        def unf(args, no=len(outer)):
            o, v = args[:no], args[no]
            sb = list(zip(outer, o))
            return [z3.Implies(v == 0, g(*args) == self.subst(p0, sb)),
                    z3.Implies(v >= 1, g(*args) == eng.rewrite(self.subst(lam, sb + [(nu, v - 1)])))]
        eng.defs.setdefault(g.name(), []).append((unf, True))
        self.recs = getattr(self, 'recs', {})
        self.recs[g.name()] = (g, outer, nu, lam, p0)
        return g(*(outer + [tz(T, 'int')]))

    def subst(self, e, sb):
        if not is_sym(e) or not sb:
            return e
        return z3.substitute(e, *[(a, b) for a, b in sb])

    def depends(self, e, v):
        if not is_sym(e):
            return False
        seen = set()
        stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(v):
                return True
            stk.extend(x.children())
        return False

    def new_sum(self, outer, nidx, summand, k='real'):
        """partial-sum symbol S(outer, idx, u) = sum_{0<=v<u} summand(v, outer, idx)"""
        eng = self.eng
        nm = eng.fresh_name('SUM')
        f = z3.Function(nm, *([INT] * (len(outer) + nidx + 1) + [SORTS[k]]))
        no = len(outer)

        def unf(args):
            o, idx, u = args[:no], args[no:no + nidx], args[no + nidx]
            return [z3.Implies(u <= 0, f(*args) == 0)]

        def unf1(args):
            o, idx, u = args[:no], args[no:no + nidx], args[no + nidx]
            return [z3.Implies(u >= 1, f(*(list(o) + list(idx) + [u - 1])) + tz(summand(u - 1, o, idx), k) == f(*args))]
        eng.defs.setdefault(nm, []).append((unf, False))
        eng.defs.setdefault(nm, []).append((unf1, True))
        eng.sums[nm] = (no, nidx, summand)

        def app(o, idx, u):
            return f(*(list(o) + [tz(x, 'int') for x in idx] + [tz(u, 'int')]))
        return app

    def array_rule(self, i, pre, sN, entry, f, outer, nu, T, hyp, loop_mids):
        eng = self.eng
        knd, aname, nd = self.arr_by_id(i, pre)
        preC, cont = pre.heap[i], sN.heap[i]
        xi = tuple(z3.Int('xi!%d!%d' % (i, d)) for d in range(nd))
        wr = cont.written(xi, entry)
        after = tz(cont.read(xi), knd)
        wafter = tz(cont.wread(xi, entry), knd)
        closed = not self.has_decl(wafter, loop_mids)
        pts = cont.points(entry)
        if pts is not None:
            # drop points with identical index
            wr = tz(wr)
        wr = tz(wr)
        no = len(outer)
        # distinctness: two different iterations never write the same cell
        nu2 = z3.Int(nu.decl().name() + "'")
        wr2 = z3.substitute(wr, (nu, nu2))
        hyp2 = [z3.substitute(tz(h), (nu, nu2)) for h in hyp]
        pre_t = tz(preC.read(xi), knd)
        ssa = eng.valid(list(hyp) + hyp2 + [nu < nu2, wr, wr2], z3.BoolVal(False), timeout=3000)
        name = f.name()
        # overlapping writes that all store the same value in a cell: the first writer is the owner
        overlap = (not ssa) and closed and eng.valid(
            list(hyp) + hyp2 + [nu < nu2, wr, wr2],
            tz(cmp('==', wafter, z3.substitute(wafter, (nu, nu2)))), timeout=3000)
        if ssa or overlap:
            # owner
            inv = self.inverse(pts, nu, xi, hyp) if ssa else None
            if inv is not None:
                def owner(o, idx, inv=inv):
                    return self.subst(inv, list(zip(outer, o)) + list(zip(xi, idx)))
            else:
                kw = z3.Function(eng.fresh_name('own_%s' % (aname or i)), *([INT] * (no + nd) + [INT]))
                Tz = tz(T, 'int')

                def wfun(h, idx, o, wr=wr):
                    return self.subst(wr, list(zip(outer, o)) + list(zip(xi, idx)) + [(nu, h)])
                eng.owners[kw.name()] = (lambda o, Tz=Tz: self.subst(Tz, list(zip(outer, o))), wfun, no, overlap)
                # candidate inverses of individual point writes
                for c in self.cand_inverses(cont.cands(entry), nu, xi) if ssa else []:
                    def candf(args, c=c, kw=kw):
                        o, idx = args[:no], args[no:]
                        h = self.subst(c, list(zip(outer, o)) + list(zip(xi, idx)))
                        w = wfun(h, idx, o)
                        return [z3.Implies(tz(b_and(h >= 0, h < self.subst(Tz, list(zip(outer, o))), w)),
                                           kw(*args) == h)]
                    eng.defs.setdefault(kw.name(), []).append((candf, False))

                def owner(o, idx, kw=kw):
                    return kw(*(list(o) + [tz(x, 'int') for x in idx]))
            F = z3.Function(eng.fresh_name('fin_%s' % (aname or i)), *([INT] * (no + nd) + [SORTS[knd]]))

            def wcond(o, idx, upto):
                v = owner(o, idx)
                sb = list(zip(outer, o)) + list(zip(xi, idx)) + [(nu, v)]
                return b_and(z3.simplify(z3.And(v >= 0, v < tz(upto, 'int'))),
                             z3.simplify(self.subst(wr, sb)))

            def value(o, idx):
                v = owner(o, idx)
                sb = list(zip(outer, o)) + list(zip(xi, idx)) + [(nu, v)]
                return self.subst(wafter, sb)

            def unf(args):
                o, idx = args[:no], args[no:]
                To = self.subst(tz(T, 'int'), list(zip(outer, o)))
                c = eng.rewrite(tz(wcond(o, idx, To)))
                return [z3.Implies(c, F(*args) == eng.rewrite(value(o, idx)))]
            eng.defs.setdefault(F.name(), []).append((unf, True))

            def resolver(args):
                o, v, idx = args[:no], args[no], args[no + 1:]
                c = wcond(o, idx, v)
                p = self.subst(pre_t, list(zip(outer, o)) + list(zip(xi, idx)))
                return ite(c, F(*(list(o) + list(idx))), p)
            eng.mids[name] = resolver

            def post(idx, T=T):
                idx = tuple(tz(x, 'int') for x in idx)
                c = wcond(outer, idx, T)
                if conc(c) is False:
                    return preC.read(idx)
                return ite(c, wval(idx), preC.read(idx))

            def wval(idx):
                idx = tuple(tz(x, 'int') for x in idx)
                return value(outer, idx) if closed else F(*(list(outer) + list(idx)))
            lc = LoopContent(post, preC, lambda idx, T=T: wcond(outer, tuple(tz(x, 'int') for x in idx), T), wval)
            lc.own_cands = [tuple(None if w is None or (is_sym(w) and self.has_decl(w, [nu.decl()])) else w for w in t)
                            for t in cont.cands(entry)]
            return lc
        # accumulation?
        if knd in ('real', 'int'):
            m1 = z3.Function(eng.fresh_name('m1'), *([INT] * nd + [SORTS[knd]]))
            m2 = z3.Function(eng.fresh_name('m2'), *([INT] * nd + [SORTS[knd]]))

            def repl(e, m):
                return self.replace_fn(e, name, lambda ch: m(*ch[no + 1:]))
            d1 = repl(after, m1) - m1(*xi)
            d2 = repl(after, m2) - m2(*xi)
            if eng.valid(hyp, d1 == d2, timeout=3000):
                zero = tz(0, knd)
                delta = self.replace_fn(after, name, lambda ch: zero)
                delta = z3.simplify(delta)

                def summand(v, o, idx):
                    return self.subst(delta, list(zip(outer, o)) + list(zip(xi, idx)) + [(nu, v)])
                S = self.new_sum(outer, nd, summand, knd)

                def resolver(args):
                    o, v, idx = args[:no], args[no], args[no + 1:]
                    p = self.subst(pre_t, list(zip(outer, o)) + list(zip(xi, idx)))
                    return add(p, S(o, idx, v))
                eng.mids[name] = resolver

                def post(idx, T=T):
                    idx = tuple(tz(x, 'int') for x in idx)
                    return add(preC.read(idx), S(outer, idx, T))
                return LoopContent(post, preC, lambda idx: True)
        raise Unsupported('loop updates %s in a way outside the loop rule' % (aname or i))

    def replace_fn(self, e, name, fn):
        cache = {}

        def go(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            ch = [go(c) for c in x.children()]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name:
                r = fn(ch)
            elif ch and any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(
                    x, *[(b, a) for a, b in zip(ch, x.children()) if not a.eq(b)])
            else:
                r = x
            cache[i] = (x, r)
            return r
        return go(e)

    def affine_inv(self, w, nu, x):
        """solve w(nu)=x for nu when w is affine in nu with slope +-1"""
        if not is_sym(w):
            return None
        if z3.is_app(w) and w.decl().name() in self.eng.inverses:
            ch = w.children()
            if any(self.depends(c, nu) for c in ch[:-1]):
                return None
            return self.affine_inv(ch[-1], nu, self.eng.inverses[w.decl().name()](ch, x))
        d = z3.simplify(z3.substitute(w, (nu, nu + 1)) - w, som=True)
        c = conc(d)
        if c not in (1, -1):
            return None
        w0 = z3.simplify(z3.substitute(w, (nu, z3.IntVal(0))))
        return z3.simplify(x - w0) if c == 1 else z3.simplify(w0 - x)

    def cand_inverses(self, pts, nu, xi):
        out = []
        for idx in (pts or []):
            for w, x in zip(idx, xi):
                rs = [] if w is None else [self.affine_inv(e, nu, x) for e in self.branches(tz(w, 'int'))]
                rs = [r for r in rs if r is not None]
                if rs:
                    out += [r for r in rs if not any(r.eq(c) for c in out)]
                    break
        return out

    def branches(self, e):
        """the expressions a top-level conditional chooses between"""
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            return self.branches(e.arg(1)) + self.branches(e.arg(2))
        return [e]

    def inverse(self, pts, nu, xi, hyp):
        if not pts:
            return None
        invs = []
        for g, idx in pts:
            got = None
            for w, x in zip(idx, xi):
                r = self.affine_inv(tz(w, 'int'), nu, x)
                if r is not None:
                    got = r
                    break
            if got is None:
                return None
            invs.append(got)
        for r in invs[1:]:
            if not z3.simplify(r - invs[0]).eq(z3.IntVal(0)):
                return None
        return invs[0]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return Opaque('inf')
            return Fr(repr(v))
        return v

    def e_JoinedStr(self, n, st):
        return Opaque('fstring')

    def e_Name(self, n, st):
        return self.lookup(n.id, st)

    def lookup(self, name, st):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Partial) and self.eng.valid(st.pc, v.cond):
                return v.val
            if isinstance(v, Poison):
                raise Unsupported('use of %s: %s' % (name, v.why))
            return v
        fr = self.frames[-1]
        cl = fr.closure
        if cl and name in cl:
            return cl[name]
        r = self.ld.resolve(name, fr.module)
        if r is not None:
            if isinstance(r, tuple) and r[0] == 'from':
                return L.ModRef(r[1] + '.' + r[2])
            return r
        if name in fr.module.assigns:
            return self.ev_module_expr(fr.module.assigns[name], fr.module)
        if name in ('range', 'len', 'abs', 'min', 'max', 'enumerate', 'zip', 'reversed', 'int', 'float', 'bool',
                    'print', 'isinstance', 'sum', 'tuple', 'list', 'any', 'all', 'super', 'round', 'dict', 'str', 'set', 'setattr', 'hasattr', 'getattr',
                    'getattr', 'hasattr', 'pow', 'sorted', 'set', 'slice', 'callable', 'divmod', 'iter', 'next',
                    'map', 'filter'):
            return Builtin(name)
        if name in ('ValueError', 'NotImplementedError', 'TypeError', 'RuntimeError', 'Exception', 'AssertionError',
                    'KeyError', 'IndexError'):
            return Opaque('exc')
        raise Unsupported('unknown name ' + name)

    def ev_module_expr(self, e, module):
        st = State()
        self.frames.append(L.FuncRef(None, module, module.name))
        try:
            return self.ev(e, st)
        finally:
            self.frames.pop()

    def e_Tuple(self, n, st):
        return tuple(self.ev(x, st) for x in n.elts)

    def e_List(self, n, st):
        return self.new_list([self.ev(x, st) for x in n.elts], st)

    def e_Dict(self, n, st):
        if any(k is None for k in n.keys):
            raise Unsupported('** in a dict display')
        return SDict(st, [(self.dkey(self.ev(k, st)), self.ev(v, st)) for k, v in zip(n.keys, n.values)])

    def dkey(self, k):
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, Fr):
            return k
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        raise Unsupported('dict key %r' % (k,))

    def e_Set(self, n, st):
        return frozenset(self.dkey(self.ev(x, st)) for x in n.elts)

    def e_ListComp(self, n, st):
        return self.comp(n, st)

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st)

    def comp(self, n, st):
        if len(n.generators) != 1:
            raise Unsupported('nested comprehension')
        g = n.generators[0]
        it = self.iterspec(self.ev(g.iter, st), st)
        tc = conc(it.trip)
        if tc is not None and tc <= MAXUNROLL:
            out = []
            for j in range(tc):
                s2 = st
                saved = dict(st.env)
                self.assign(g.target, it.at(j), st)
                ok = True
                for c in g.ifs:
                    d = self.decide(self.as_bool(self.ev(c, st), st), st)
                    if d is None:
                        raise Unsupported('symbolic comprehension filter')
                    ok = ok and d
                if ok:
                    out.append(self.ev(n.elt, st))
                st.env = saved
            return out
        if g.ifs:
            raise Unsupported('filtered symbolic comprehension')
        # map comprehension -> array value
        eng = self.eng
        nu = z3.Int(eng.fresh_name('nu'))
        s2 = st.copy()
        s2.pc.append(z3.And(nu >= 0, nu < tz(it.trip, 'int')))
        outer = eng.loopvars
        eng.loopvars = outer + [nu]
        try:
            self.assign(g.target, it.at(nu), s2)
            before = dict(s2.heap)
            v = self.ev(n.elt, s2)
        finally:
            eng.loopvars = outer
        if not is_num(v):
            raise Unsupported('comprehension of non-scalars')
        for i, c in before.items():
            if s2.heap[i] is not c:
                raise Unsupported('effects in comprehension')
        return self.alloc(st, kind(v), (it.trip,), Fun(lambda idx: self.subst(v, [(nu, tz(idx[0], 'int'))])))

    def e_IfExp(self, n, st):
        c = self.as_bool(self.ev(n.test, st), st)
        d = self.decide(c, st)
        if d is True:
            return self.ev(n.body, st)
        if d is False:
            return self.ev(n.orelse, st)
        a = self.ev_guarded(n.body, st, c)
        b = self.ev_guarded(n.orelse, st, b_not(c))
        r = self.merge_val(c, a, b, st, st, st)
        if isinstance(r, Poison):
            raise Unsupported(r.why)
        return r

    def ev_guarded(self, n, st, c):
        heap, objs, env, npc = dict(st.heap), {k: dict(v) for k, v in st.objs.items()}, dict(st.env), len(st.pc)
        st.pc.append(c)
        try:
            r = self.ev(n, st)
        finally:
            del st.pc[npc:]
        if (any(st.heap.get(i) is not x for i, x in heap.items()) or any(st.env.get(i) is not x for i, x in env.items())
                or any(len(st.objs[i]) != len(x) or any(st.objs[i].get(k) is not y for k, y in x.items()) for i, x in objs.items())):
            raise Unsupported('side effect in a part of an expression that is not always evaluated')
        return r

    def e_BoolOp(self, n, st):
        vals = []
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.ev(x, st) if not vals else self.ev_guarded(x, st, b_and(*vals) if isand else b_not(b_or(*vals)))
            c = self.as_bool(v, st)
            d = self.decide(c, st)
            if d is not None:
                if isand and d is False or (not isand and d is True):
                    if not vals:
                        return v
                    return b_and(*(vals + [False])) if isand else b_or(*(vals + [True]))
                if i == len(n.values) - 1 and not vals:
                    return v
                continue
            vals.append(c)
        if not vals:
            return isand
        return b_and(*vals) if isand else b_or(*vals)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return b_not(self.as_bool(v, st))
        if isinstance(n.op, ast.USub):
            if isinstance(v, Opaque) and v.name == 'inf':
                return Opaque('-inf')
            return self.pointwise(st, neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.pointwise(st, lambda x: b_not(truth(x)) if kind(x) == 'bool' else sub(neg(x), 1), v)
        raise Unsupported('unary op')

    OPS = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.FloorDiv: floordiv, ast.Mod: mod}

    def e_BinOp(self, n, st):
        return self.binop(n.op, self.ev(n.left, st), self.ev(n.right, st), st)

    def binop(self, op, a, b, st):
        t = type(op)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and t is ast.Add:
            return a + b
        if isinstance(a, list) and t is ast.Mult and isinstance(b, int):
            return a * b
        if isinstance(a, str) or isinstance(b, str):
            return Opaque('str')
        if t in self.OPS:
            f = self.OPS[t]
            if t is ast.Div:
                def f(x, y, st=st):
                    self.note_div(st, y)
                    return div(x, y)
            return self.pointwise(st, f, a, b)
        if t is ast.Pow:
            return self.pointwise(st, self.eng.power, a, b)
        if t in (ast.BitAnd, ast.BitOr):
            def f(x, y):
                if kind(x) == 'bool' and kind(y) == 'bool':
                    return b_and(x, y) if t is ast.BitAnd else b_or(x, y)
                raise Unsupported('bitwise on integers')
            return self.pointwise(st, f, a, b)
        if t is ast.BitXor:
            return self.pointwise(st, lambda x, y: b_and(b_or(x, y), b_not(b_and(x, y))), a, b)
        if t is ast.MatMult:
            return self.matmul(a, b, st)
        raise Unsupported('operator ' + t.__name__)

    def note_div(self, st, y):
        c = conc(y)
        if c is None:
            self.eng.divisors.append((list(st.pc), y, self.frames[-1].qual if self.frames else ''))

    def matmul(self, a, b, st):
        ka, sa, ra = self.lift(st, a)
        kb, sb, rb = self.lift(st, b)
        n = sa[-1]
        nout = len(sa) + len(sb) - 2
        shape = tuple(sa[:-1]) + tuple(sb[:-2] if len(sb) > 1 else ()) + tuple(sb[-1:] if len(sb) > 1 else ())

        def summ(v, o, idx, outer=list(self.eng.loopvars)):
            i = tuple(idx[:len(sa) - 1]) + (v,)
            j = (v,) + tuple(idx[len(sa) - 1:])
            e = mul(self.cast(ra(i), 'real'), self.cast(rb(j), 'real'))
            return self.subst(e, list(zip(outer, o)))
        S = self.new_sum(list(self.eng.loopvars), nout, summ)
        outer = list(self.eng.loopvars)
        if nout == 0:
            return S(outer, (), n)
        return self.alloc(st, 'real', shape, Fun(lambda idx: S(outer, idx, n)))

    CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            c = self.compare(op, left, right, st)
            if len(n.ops) == 1:
                return c
            res = b_and(res, self.as_bool(c, st))
            left = right
        return res

    def compare(self, op, a, b, st):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if a is None or b is None:
                r = (a is None) and (b is None)
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            else:
                r = a is b
            return r if t is ast.Is else not r
        if t in (ast.In, ast.NotIn):
            if isinstance(b, SDict):
                d = b.d(st)
                k = self.dkey(a)
                if isinstance(d.get(k), Poison):
                    raise Unsupported('membership of %r depends on the path' % (k,))
                r = k in d
                return r if t is ast.In else not r
            if isinstance(b, (list, tuple, frozenset, str)) and isinstance(a, (str, int, Fr, type(None))) and \
                    (isinstance(b, (str, frozenset)) or not any(is_sym(x) for x in b)):
                r = a in b
                return r if t is ast.In else not r
            raise Unsupported('in')
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
            if t is ast.Eq:
                return a == b
            if t is ast.NotEq:
                return a != b
        if isinstance(a, (str, type(None))) != isinstance(b, (str, type(None))) and not isinstance(a, ARRAYS) and not isinstance(b, ARRAYS):
            if (is_num(a) or is_num(b)) and t in (ast.Eq, ast.NotEq):
                return t is ast.NotEq
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            # comparisons with +-inf on reals
            if isinstance(b, Opaque) and b.name in ('inf', '-inf') and t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                v = (t in (ast.Lt, ast.LtE)) == (b.name == 'inf')
                return self.pointwise(st, lambda x: v, a)
            raise Unsupported('comparison with %r' % (b,))
        o = self.CMPS.get(t)
        if o is None:
            raise Unsupported('comparison')
        return self.pointwise(st, lambda x, y: cmp(o, x, y), a, b)

    # ---- subscripts
    def ev_index(self, n, st):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, st) for x in n.elts)
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower, st) if n.lower else None, self.ev(n.upper, st) if n.upper else None,
                         self.ev(n.step, st) if n.step else None)
        return self.ev(n, st)

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        return self.getitem(o, self.ev_index(n.slice, st), st)

    def e_Slice(self, n, st):
        return self.ev_index(n, st)

    def submask(self, st, c):
        """the mask, over the whole index space, of the cells of the selection c that hold"""
        m, rd = c.mask, self.reader(st, c)
        return lambda idx: b_and(truth(m(idx)), truth(rd(idx)))

    def slice_bounds(self, sl, n, st):
        step = conc(sl.step) if sl.step is not None else 1
        if step not in (1, -1):
            if sl.step is None or step is None:
                raise Unsupported('slice step')
            if step < 1:
                raise Unsupported('slice step')
        if step == -1:
            if sl.start is None and sl.stop is None:
                return sub(n, 1), n, -1
            raise Unsupported('negative-step slice')

        def nb(x, default):
            if x is None:
                return default
            c = conc(x)
            if c is not None and c < 0:
                return vmax(add(n, c), 0) if conc(n) is not None else self.clampable(add(n, c), n, st)
            if c is not None and conc(n) is not None:
                return min(c, n)
            return self.clampable(x, n, st)
        lo = nb(sl.start, 0)
        hi = nb(sl.stop, n)
        ln = sub(hi, lo)
        if conc(ln) is None:
            if not self.eng.valid(st.pc, ln >= 0, timeout=1000):
                ln = vmax(ln, 0)
        else:
            ln = max(conc(ln), 0)
        if step > 1:
            ln = floordiv(add(ln, step - 1), step)
        return lo, ln, step

    def clampable(self, x, n, st):
        """python clamps slice bounds into [0,n]"""
        if conc(x) == 0:
            return x
        ok = self.eng.valid(st.pc, b_and(cmp('>=', x, 0), cmp('<=', x, n)), timeout=1000)
        if ok:
            return x
        y = ite(cmp('<', x, 0), vmax(add(x, n), 0), x)
        return vmin(y, n)

    def getitem(self, o, i, st):
        if isinstance(o, (list, tuple)):
            if isinstance(i, slice):
                return o[slice(conc(i.start) if i.start is not None else None,
                               conc(i.stop) if i.stop is not None else None,
                               conc(i.step) if i.step is not None else None)]
            c = conc(i)
            if c is None:
                raise Unsupported('symbolic list index')
            return o[c]
        if isinstance(o, SDeque):
            c = conc(i)
            d = st.objs[o.id]
            if c not in (0, 1, 2) or not self.decide(cmp('>', d['n'], c), st):
                raise Unsupported('deque index')
            if isinstance(d[c], Poison):
                raise Unsupported(d[c].why)
            return d[c]
        if isinstance(o, SDict):
            k = self.dkey(i)
            if k in o.d(st):
                v = o.d(st)[k]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            raise Unsupported('dict key %r' % (i,))
        if isinstance(o, MArr):
            if i == slice(None):
                return o
            if isinstance(i, MArr) and i.kind == 'bool' and self.same_mask(st, o, i):
                return self.select(st, o, self.submask(st, i))
            raise Unsupported('subscript of masked selection')
        if not isinstance(o, ARRAYS):
            raise Unsupported('subscript of %r' % (o,))
        if not isinstance(i, tuple):
            i = (i,)
        if any(x is Ellipsis for x in i):
            raise Unsupported('ellipsis')
        # plain scalar indexing
        if len(i) == o.ndim and all(is_num(x) and kind(x) != 'bool' for x in i):
            idx = tuple(self.norm_idx(st, x, n) for x, n in zip(i, o.shape))
            return self.read(st, o, idx)
        # boolean mask
        if len(i) == 1 and isinstance(i[0], ARRAYS) and i[0].kind == 'bool':
            m = self.reader(st, i[0])
            if not self.same_shape(st, i[0], o):
                raise Unsupported('mask shape')
            return self.select(st, o, m)
        if len(i) == 1 and isinstance(i[0], MIndex) and i[0].inner is None and self.same_shape(st, i[0], o):
            return self.select(st, o, i[0].mask)
        if len(i) == 1 and isinstance(i[0], MIndex) and i[0].inner is not None and o.id in self.posmask:
            # positions selected among the positions of a mask
            m = self.posmask[o.id]
            if m[0] is st.heap.get(o.id) and self.same_mask(st, m[1], MIndex(i[0].inner, i[0].shape)):
                return MIndex(i[0].mask, i[0].shape)
            raise Unsupported('positions of a different mask')
        # integer fancy indexing
        if any(isinstance(x, ARRAYS + (list,)) for x in i):
            if all(isinstance(x, ARRAYS) and x.kind == 'int' and x.ndim == 1 for x in i) and len(i) <= o.ndim:
                rds = [self.reader(st, x) for x in i]
                ro = self.reader(st, o)
                nrest = o.ndim - len(i)
                shape = (i[0].shape[0],) + tuple(o.shape[len(i):])

                def g(idx, rds=rds, ro=ro):
                    j = tuple(self.norm_idx(st0, r((idx[0],)), n) for r, n in zip(rds, o.shape))
                    return ro(j + tuple(idx[1:]))
                st0 = st.copy()
                return self.alloc(st, o.kind, shape, Fun(g))
            raise Unsupported('fancy indexing')
        return self.view(o, i, st)

    def view(self, o, i, st):
        """basic slicing -> View"""
        if any(x is None for x in i):
            if o.ndim == 1 and len(i) == 2 and i.count(None) == 1:
                k = i.index(None)
                oth = i[1 - k]
                base = o if (isinstance(oth, slice) and oth == slice(None)) else self.view(o, (oth,), st)
                if k == 1:
                    return View(base, (base.shape[0], 1), lambda idx: (idx[0],),
                                lambda b: (True, (b[0], 0)))
                return View(base, (1, base.shape[0]), lambda idx: (idx[1],),
                            lambda b: (True, (0, b[0])))
            raise Unsupported('newaxis')
        if len(i) > o.ndim:
            raise Unsupported('too many indices')
        specs = []
        i = tuple(i) + (slice(None),) * (o.ndim - len(i))
        for x, n in zip(i, o.shape):
            if isinstance(x, slice):
                specs.append(('s',) + self.slice_bounds(x, n, st))
            elif is_num(x):
                specs.append(('i', self.norm_idx(st, x, n)))
            else:
                raise Unsupported('index %r' % (x,))
        shape = tuple(s[2] for s in specs if s[0] == 's')

        def fwd(idx):
            out, j = [], 0
            for s in specs:
                if s[0] == 'i':
                    out.append(s[1])
                else:
                    out.append(add(s[1], mul(idx[j], s[3])))
                    j += 1
            return tuple(out)

        def inv(b):
            c, v = [], []
            for s, x in zip(specs, b):
                if s[0] == 'i':
                    c.append(cmp('==', x, s[1]))
                else:
                    if s[3] == 1:
                        d = sub(x, s[1])
                    elif s[3] == -1:
                        d = sub(s[1], x)
                    else:
                        raise Unsupported('write through strided slice')
                    c.append(b_and(cmp('>=', d, 0), cmp('<', d, s[2])))
                    v.append(d)
            return b_and(*c), tuple(v)
        return View(o, shape, fwd, inv)

    def setitem(self, o, i, v, st):
        if isinstance(o, SDict):
            self.dict_writable(o)
            o.d(st)[self.dkey(i)] = v
            return
        if isinstance(o, list):
            c = conc(i)
            if c is None:
                raise Unsupported('symbolic list store')
            self.list_writable(o, st)
            o[c] = v
            return
        if isinstance(o, MArr):
            if isinstance(i, MArr) and i.kind == 'bool' and self.same_mask(st, o, i):
                rd, want = self.reader(st, i), MIndex(self.submask(st, i), o.shape)
                pred = lambda idx: truth(rd(idx))
            elif i == slice(None):
                pred, want = (lambda idx: True), o
            else:
                raise Unsupported('store into masked selection')
            if isinstance(v, MArr):
                if not self.same_mask(st, want, v):
                    raise Unsupported('masked store with a different mask')
                g = self.reader(st, v)
            elif is_num(v):
                g = lambda idx: v
            else:
                raise Unsupported('masked store of array')
            self.write_region(st, o, pred, g)
            return
        if not isinstance(o, ARRAYS):
            raise Unsupported('store into %r' % (o,))
        if not isinstance(i, tuple):
            i = (i,)
        if len(i) == o.ndim and all(is_num(x) and kind(x) != 'bool' for x in i):
            idx = tuple(self.norm_idx(st, x, n) for x, n in zip(i, o.shape))
            if isinstance(v, ARRAYS) and all(conc(d) == 1 for d in v.shape):
                v = self.reader(st, v)(tuple(0 for _ in v.shape))
            if not is_num(v):
                raise Unsupported('store of %r' % (v,))
            self.write_point(st, o, idx, v)
            return
        if len(i) == 1 and (isinstance(i[0], ARRAYS) and i[0].kind == 'bool' or isinstance(i[0], MIndex) and i[0].inner is None):
            m = i[0].mask if isinstance(i[0], MIndex) else self.reader(st, i[0])
            if not self.same_shape(st, i[0], o):
                raise Unsupported('mask shape')
            if isinstance(v, MArr):
                if isinstance(i[0], MIndex) or not self.same_mask(st, MIndex(m, o.shape), v):
                    raise Unsupported('masked store with a different mask')
                g = self.reader(st, v)
            elif is_num(v):
                g = lambda idx: v
            elif isinstance(v, Opaque) and v.name == 'inf':
                inf = z3.Real('INF!')       # an unknown value: nothing is provable about a cell that holds it
                g = lambda idx: inf
            else:
                raise Unsupported('masked store of array')
            self.write_region(st, o, m, g)
            return
        if any(isinstance(x, ARRAYS) for x in i):
            if all(isinstance(x, ARRAYS) and x.kind == 'int' and x.ndim == 1 for x in i) and len(i) == o.ndim:
                n = i[0].shape[0]
                rds = [self.reader(st, x) for x in i]
                k, sh, rv = self.lift(st, v)
                base = o
                self.array_loop(st, n, lambda s, nu: self.write_point(
                    s, base, tuple(self.norm_idx(s, r((nu,)), d) for r, d in zip(rds, base.shape)),
                    rv((nu,)) if sh is not None else rv(None)))
                return
            raise Unsupported('fancy store')
        w = self.view(o, i, st)
        if isinstance(v, MArr):
            raise Unsupported('slice store of masked selection')
        k, sh, rv = self.lift(st, v)
        self.write_region(st, w, lambda idx: True,
                          (lambda idx: self.bidx(idx, sh, rv)) if sh is not None else (lambda idx: rv(None)))

    def dict_writable(self, o):
        if o.id in self.frozen:
            raise Unsupported('store through a dict reference that depends on the path taken')

    def list_writable(self, o, st):
        """python lists are shared between the paths of a run: a list may be changed only on the path that made it"""
        b = self.births.get(id(o))
        if b is None or b[0] is not o or len(b[1]) != len(st.pc) or any(x is not y for x, y in zip(b[1], st.pc)):
            raise Unsupported('list changed under a condition that did not hold when it was made')

    def new_list(self, xs, st):
        xs = list(xs)
        self.births[id(xs)] = (xs, list(st.pc))
        return xs

    def array_loop(self, st, n, action):
        """synthetic loop for scatter operations"""
        class _N:
            pass
        node = ast.Pass()
        interp = self

        def bind(s, nu):
            action(s, nu)
        outs = self.sym_loop(st, tz(n, 'int'), bind, [ast.Pass()], None)
        assert len(outs) == 1 and outs[0][0] == 'normal'
        s2 = outs[0][1]
        st.heap, st.objs, st.env, st.pc = s2.heap, s2.objs, s2.env, s2.pc

    # ---- attributes
    def e_Attribute(self, n, st):
        return self.getattr(self.ev(n.value, st), n.attr, st)

    def getattr(self, o, name, st):
        if isinstance(o, L.ModRef):
            if o.name == NP or o.name.startswith('numpy.') or o.name == 'np':
                if name == 'pi':
                    return self.eng.PI
                if name == 'inf':
                    return Opaque('inf')
                if name == 'nan':
                    return Opaque('nan')
                if name in ('float64', 'int64', 'bool_', 'bool8', 'float32', 'int32', 'intp'):
                    return Opaque('dtype', {'f': 'real', 'i': 'int', 'b': 'bool'}[name[0]])
                if name == 'newaxis':
                    return None
                if name in ('linalg', 'add', 'maximum', 'minimum', 'core') and name in ('linalg', 'core'):
                    return L.ModRef('numpy.' + name)
                return NPFn(name)
            if o.name == 'math':
                return self.eng.PI if name == 'pi' else NPFn(name)
            r = self.ld.mod_attr(o, name)
            if r is None:
                raise Unsupported('module attribute %s.%s' % (o.name, name))
            if isinstance(r, tuple) and r[0] == 'assign':
                return self.ev_module_expr(r[2], r[1])
            return r
        if isinstance(o, Opaque) and o.name == 'finfo' and name == 'eps':
            return Fr(1, 2 ** 52)
        if isinstance(o, NPFn):
            return NPFn(o.name + '.' + name)
        if isinstance(o, ARRAYS):
            if name == 'size':
                s = 1
                for d in o.shape:
                    s = mul(s, d)
                return s
            if name == 'shape':
                return tuple(o.shape)
            if name == 'T':
                if o.ndim == 1:
                    return o
                return View(o, tuple(reversed(o.shape)), lambda i: tuple(reversed(i)),
                            lambda b: (True, tuple(reversed(b))))
            if name == 'ndim':
                return o.ndim
            if name == 'values':
                return o
            if name == 'dtype':
                return Opaque('dtype', o.kind)
            return BoundMethod(o, name)
        if isinstance(o, MArr):
            if name == 'size':
                return MSize(o)
            if name == 'shape':
                return (MSize(o),)
            if name == 'ndim':
                return 1
            if name == 'dtype':
                return Opaque('dtype', o.kind)
            return BoundMethod(o, name)
        if isinstance(o, (SDict, SDeque)):
            return BoundMethod(o, name)
        if isinstance(o, SObj):
            d = st.objs.setdefault(o.id, {})
            m = self.ld.method(o.cls, name) if o.cls is not None else None
            if name in d and not (m is not None and m.is_property):
                v = d[name]
                if isinstance(v, Poison):
                    raise Unsupported('attribute %s: %s' % (name, v.why))
                return v
            if o.cls is not None:
                if m is not None:
                    if m.is_property:
                        return self.call(m, [o], {}, st)
                    return BoundMethod(o, name)
            if self.attr_model is not None:
                v = self.attr_model(self, o, name, st)
                if v is not NotImplemented:
                    d[name] = v
                    return v
            raise Unsupported('attribute self.%s' % name)
        if isinstance(o, SuperRef):
            return BoundMethod(o, name)
        if isinstance(o, L.ClassRef):
            for k in self.ld.mro(o):
                if name in k.methods:
                    return BoundMethod(o, name)
                if name in k.attrs:
                    return self.ev_module_expr(k.attrs[name], k.module)
            raise Unsupported('class attribute ' + name)
        if isinstance(o, (list, str, frozenset)):
            return BoundMethod(o, name)
        if is_num(o):
            if name in ('astype', 'item', 'copy'):
                return BoundMethod(o, name)
            if name == 'size':
                return 1
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr(self, o, name, v, st):
        if isinstance(o, SObj) and not isinstance(o, SDict):
            m = self.ld.setter(o.cls, name) if o.cls is not None else None
            if m is not None:
                self.call(m, [o, v], {}, st)
                return
            p = self.ld.method(o.cls, name) if o.cls is not None else None
            if p is not None and p.is_property:
                raise Unsupported('assignment to the read-only property ' + name)
            st.objs.setdefault(o.id, {})[name] = v
            return
        raise Unsupported('setattr on %r' % (o,))

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        fd = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.Return(value=n.body)], decorator_list=[])
        return L.FuncRef(fd, fr.module, fr.qual + '.<lambda>', closure=dict(st.env))

    # ---- calls
    def e_Call(self, n, st):
        f = self.ev(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if not isinstance(v, (tuple, list)):
                    raise Unsupported('star-args')
                args.extend(v)
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                if not isinstance(v, SDict):
                    raise Unsupported('**kwargs')
                kw.update(v.items_checked(st))
            else:
                kw[k.arg] = self.ev(k.value, st)
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        if isinstance(f, L.FuncRef):
            return self.call_func(f, args, kw, st)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw, st)
        if isinstance(f, NPFn):
            from .npshim import np_call
            return np_call(self, f.name, args, kw, st)
        if isinstance(f, BoundMethod):
            return self.call_method(f.obj, f.name, args, kw, st)
        if isinstance(f, Opaque) and f.name == 'dtype':
            return self.pointwise(st, lambda x: self.cast(x, f.payload), args[0])
        if isinstance(f, Opaque) and f.name == 'exc':
            return Opaque('excval')
        if isinstance(f, L.ModRef):
            key = f.name
            if key in self.summaries:
                self.called_summaries.add(key)
                return self.summaries[key](self, args, kw, st)
            from . import extern
            if key in extern.TABLE:
                self.externals.add(key)
                return extern.TABLE[key](self, args, kw, st)
            raise Unsupported('call of external %s' % key)
        if callable(f) and getattr(f, '_pydv', False):
            return f(self, args, kw, st)
        raise Unsupported('call of %r' % (f,))

    def call_deque(self, o, name, args, kw, st):
        d = st.objs[o.id]
        a, b, c, n = d[0], d[1], d[2], d['n']
        if name == 'appendleft' and len(args) == 1 and not kw:
            d.update({0: args[0], 1: a, 2: b, 'n': ite(cmp('<', n, o.MAX), add(n, 1), n)})
            return None
        if name == 'popleft' and not args and not kw and self.decide(cmp('>=', n, 1), st):
            d.update({0: b, 1: c, 2: Poison('item past the end of a deque'), 'n': sub(n, 1)})
            return a
        if name == 'append' and len(args) == 1 and not kw and conc(cmp('==', n, o.MAX)) is True:
            d.update({0: b, 1: c, 2: args[0]})
            return None
        raise Unsupported('%s of a deque' % name)

    def call_method(self, o, name, args, kw, st):
        if isinstance(o, SDeque):
            return self.call_deque(o, name, args, kw, st)
        if isinstance(o, SObj) and not isinstance(o, SDict):
            m = self.ld.method(o.cls, name)
            if m is None:
                raise Unsupported('method ' + name)
            if m.is_static:
                return self.call_func(m, args, kw, st)
            return self.call_func(m, [o] + args, kw, st)
        if isinstance(o, SuperRef):
            m = self.ld.method(o.obj.cls, name, after=o.cls)
            if m is None:
                raise Unsupported('super method ' + name)
            return self.call_func(m, [o.obj] + args, kw, st)
        if isinstance(o, L.ClassRef):
            m = self.ld.method(o, name)
            if m.is_static:
                return self.call_func(m, args, kw, st)
            if m.is_class:
                return self.call_func(m, [o] + args, kw, st)
            return self.call_func(m, args, kw, st)
        if isinstance(o, ARRAYS + (MArr,)) or is_num(o):
            from .npshim import arr_method
            return arr_method(self, o, name, args, kw, st)
        if isinstance(o, list) and name == 'append':
            self.list_writable(o, st)
            o.append(args[0])
            return None
        if isinstance(o, SDict):
            d = o.d(st)
            if name == 'items':
                return [(k, v) for k, v in o.items_checked(st).items()]
            if name == 'keys':
                return list(o.items_checked(st))
            if name == 'values':
                return list(o.items_checked(st).values())
            if name == 'copy':
                return SDict(st, o.items_checked(st))
            if name in ('get', 'setdefault', 'pop'):
                k = self.dkey(args[0])
                if isinstance(d.get(k), Poison):
                    raise Unsupported('dict key %r: %s' % (k, d[k].why))
                if k in d:
                    if name == 'pop':
                        self.dict_writable(o)
                        return d.pop(k)
                    return d[k]
                if name == 'pop' and len(args) == 1:
                    raise Unsupported('pop of a missing key')
                v = args[1] if len(args) > 1 else None
                if name == 'setdefault':
                    self.dict_writable(o)
                    d[k] = v
                return v
            if name == 'update':
                self.dict_writable(o)
                if args:
                    if not isinstance(args[0], SDict):
                        raise Unsupported('update')
                    d.update(args[0].items_checked(st))
                d.update(kw)
                return None
        if isinstance(o, str):
            if name in ('format',):
                return Opaque('str')
            if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'removeprefix', 'removesuffix',
                        'capitalize', 'title', 'count', 'isdigit', 'isidentifier', 'zfill') and not kw and all(
                    isinstance(x, (str, tuple)) or type(x) is int for x in args):
                return getattr(o, name)(*args)
            if name in ('split', 'rsplit', 'splitlines', 'partition') and not kw and all(isinstance(x, str) or type(x) is int for x in args):
                r = getattr(o, name)(*args)
                return r if isinstance(r, tuple) else self.new_list(r, st)
            if name == 'join' and isinstance(args[0], (list, tuple)) and all(isinstance(x, str) for x in args[0]):
                return o.join(args[0])
        raise Unsupported('method %s of %r' % (name, o))

    def call_func(self, f, args, kw, st):
        short = f.qual
        if short in self.summaries and (self.depth > 0):
            self.called_summaries.add(short)
            return self.summaries[short](self, self.bindargs(f, args, kw, st), kw, st)
        if self.stages is not None and self.stages.applies(self, f, args):
            return self.stages.call(self, f, args, kw, st)
        if self.depth > self.inline_depth:
            raise Unsupported('inlining depth')
        bound = self.bindargs(f, args, kw, st)
        saved = st.env
        st.env = dict(bound)
        self.frames.append(f)
        self.depth += 1
        self.used.add(f.qual)
        npc = len(st.pc)
        try:
            work = st.copy()
            outs = self.block(f.node.body, work)
        finally:
            self.frames.pop()
            self.depth -= 1
            st.env = saved
        rets = [(s, v) for k, s, v in outs if k == 'return'] + [(s, None) for k, s, v in outs if k == 'normal']
        if any(k in ('break', 'continue') for k, _, _ in outs):
            raise Unsupported('stray break')
        if not rets:
            raise Unsupported('function %s never returns normally here' % f.qual)
        for s, _ in rets:
            s.env = {}
        if len(rets) == 1:
            s, v = rets[0]
        else:
            s, v = self.merge_many(rets, npc)
        if isinstance(v, Poison):
            raise Unsupported('return value of %s: %s' % (f.qual, v.why))
        st.heap, st.objs, st.pc = s.heap, s.objs, s.pc
        st.env = saved
        return v

    def bindargs(self, f, args, kw, st):
        a = f.node.args
        if a.vararg:
            pass
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported('too many arguments to %s' % f.qual)
            bound[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        for n, v in zip(names, args):
            bound[n] = v
        extra = {}
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in allnames:
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Unsupported('unexpected keyword %s' % k)
        if a.kwarg:
            bound[a.kwarg.arg] = SDict(st, extra)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in bound:
                bound[n] = self.ev_default(d, f, st)
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if n not in bound and d is not None:
                bound[n] = self.ev_default(d, f, st)
        miss = [n for n in allnames if n not in bound]
        if miss:
            raise Unsupported('missing arguments %s to %s' % (miss, f.qual))
        return bound

    def ev_default(self, d, f, into):
        st = State()
        st.heap, st.objs = into.heap, into.objs
        self.frames.append(L.FuncRef(None, f.module, f.qual, closure=f.closure))
        try:
            return self.ev(d, st)
        finally:
            self.frames.pop()

    def builtin(self, name, args, kw, st):
        if name in ('range',):
            a = [_num(x) for x in args]
            for x in a:
                if kind(x) != 'int':
                    raise Unsupported('range of non-int')
            if len(a) == 1:
                return RangeVal(0, a[0], 1)
            if len(a) == 2:
                return RangeVal(a[0], a[1], 1)
            return RangeVal(*a)
        if name == 'len':
            o = args[0]
            if isinstance(o, ARRAYS):
                return o.shape[0]
            if isinstance(o, MArr):
                return MSize(o)
            if isinstance(o, (list, tuple, frozenset, str)):
                return len(o)
            if isinstance(o, SDict):
                return len(o.items_checked(st))
            raise Unsupported('len')
        if name == 'abs':
            return self.pointwise(st, vabs, args[0])
        if name in ('min', 'max'):
            xs = args if len(args) > 1 else args[0]
            if isinstance(xs, ARRAYS):
                from .npshim import arr_method
                return arr_method(self, xs, name, [], {}, st)
            r = xs[0]
            for x in xs[1:]:
                r = vmax(r, x) if name == 'max' else vmin(r, x)
            return r
        if name == 'enumerate':
            it = self.iterspec(args[0], st)
            lo = args[1] if len(args) > 1 else kw.get('start', 0)
            return Opaque('iter', IterSpec(it.trip, lambda i: (add(i, lo), it.at(i))))
        if name == 'zip':
            its = [self.iterspec(a, st) for a in args]
            trip = its[0].trip
            for t in its[1:]:
                if not same(t.trip, trip) and not self.eng.valid(st.pc, cmp('==', t.trip, trip)):
                    trip = vmin(trip, t.trip)
            return Opaque('iter', IterSpec(trip, lambda i: tuple(t.at(i) for t in its)))
        if name == 'reversed':
            it = self.iterspec(args[0], st)
            return Opaque('iter', IterSpec(it.trip, lambda i: it.at(sub(sub(it.trip, 1), i))))
        if name in ('int',):
            return self.cast(args[0], 'int')
        if name == 'float':
            if isinstance(args[0], str):
                return Opaque('inf')
            return self.cast(args[0], 'real')
        if name == 'bool':
            return self.as_bool(args[0], st)
        if name == 'print':
            return None
        if name in ('tuple', 'list'):
            if not args:
                return () if name == 'tuple' else self.new_list([], st)
            if isinstance(args[0], SDict):
                args = [list(args[0].items_checked(st))]
            if isinstance(args[0], (list, tuple)):
                return tuple(args[0]) if name == 'tuple' else self.new_list(args[0], st)
            return args[0]
        if name == 'sum':
            o = args[0]
            if isinstance(o, (list, tuple)):
                r = 0
                for x in o:
                    r = self.pointwise(st, add, r, x)
                return r
            from .npshim import arr_method
            return arr_method(self, o, 'sum', [], {}, st)
        if name in ('any', 'all') and isinstance(args[0], (list, tuple)):
            bs = [self.as_bool(x, st) for x in args[0]]
            return b_or(*bs) if name == 'any' else b_and(*bs)
        if name in ('any', 'all'):
            from .npshim import arr_method
            return arr_method(self, args[0], name, [], {}, st)
        if name == 'super':
            fr = self.frames[-1]
            return SuperRef(st.env['self'], fr.cls)
        if name == 'pow':
            return self.pointwise(st, self.eng.power, args[0], args[1])
        if name == 'isinstance':
            raise Unsupported('isinstance')
        if name == 'dict':
            if args and not isinstance(args[0], SDict):
                raise Unsupported('dict of %r' % (args[0],))
            d = dict(args[0].items_checked(st)) if args else {}
            d.update(kw)
            return SDict(st, d)
        if name == 'set':
            if args and not (isinstance(args[0], (list, tuple)) and all(isinstance(x, (str, int)) for x in args[0])):
                raise Unsupported('set')
            return frozenset(args[0]) if args else frozenset()
        if name == 'setattr' and isinstance(args[1], str):
            self.setattr(args[0], args[1], args[2], st)
            return None
        if name == 'hasattr' and isinstance(args[0], SObj) and args[0].cls is not None and isinstance(args[1], str):
            o, nm = args
            if nm in st.objs.get(o.id, {}):
                if isinstance(st.objs[o.id][nm], Poison):
                    raise Unsupported('attribute %s: %s' % (nm, st.objs[o.id][nm].why))
                return True
            if self.ld.method(o.cls, nm) is not None:
                return True
            raise Unsupported('hasattr of an unmodelled attribute')
        if name == 'getattr' and isinstance(args[1], str) and len(args) == 2:
            return self.getattr(args[0], args[1], st)
        raise Unsupported('builtin ' + name)


class LoopContent(Content):
    def __init__(self, post, prev, wr, wval=None):
        self.post, self.prev, self.wr = post, prev, wr
        self.wval = wval or post
        self.memo = {}

    def wread(self, idx, base):
        if self.prev is base:
            return self.wval(idx)
        return ite(self.wr(idx), self.wval(idx), self.prev.wread(idx, base))

    def read(self, idx):
        key = tuple((i.get_id(), 's') if is_sym(i) else (i, 'c') for i in idx)
        hit = self.memo.get(key)
        if hit is None:
            hit = (self.post(idx), idx)
            self.memo[key] = hit
        return hit[0]

    def _written(self, idx, base):
        return b_or(self.wr(idx), self.prev.written(idx, base))

    def points(self, base):
        return None

    def cands(self, base):
        if self is base:
            return []
        return list(getattr(self, 'own_cands', ())) + self.prev.cands(base)


_ArrInfo = {}
_orig_init = Arr.__init__


def _init(self, knd, shape, name=''):
    _orig_init(self, knd, shape, name)
    _ArrInfo[self.id] = (knd, name, len(tuple(shape)))


Arr.__init__ = _init
