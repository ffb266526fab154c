"""Meaning of the numpy functions the code uses, over symbolic arrays."""
from fractions import Fraction as Fr
import z3
from .core import *
from .core import _num

UN = {'sqrt': 'SQRT', 'cos': 'COS', 'sin': 'SIN', 'tan': 'TAN', 'arccos': 'ACOS', 'arcsin': 'ASIN',
      'arctan': 'ATAN', 'log': 'LOG', 'exp': 'EXP', 'log10': 'LOG10', 'acos': 'ACOS', 'asin': 'ASIN', 'atan': 'ATAN'}
CM = {'greater': '>', 'greater_equal': '>=', 'less': '<', 'less_equal': '<=', 'equal': '==', 'not_equal': '!='}


def dtype_kind(d, default):
    if d is None:
        return default
    if isinstance(d, Opaque) and d.name == 'dtype':
        return d.payload
    if getattr(d, 'name', None) in ('int', 'float', 'bool'):
        return {'int': 'int', 'float': 'real', 'bool': 'bool'}[d.name]
    if isinstance(d, str):
        return 'real' if d.startswith('f') else 'int' if d.startswith('i') else 'bool'
    raise Unsupported('dtype')


def const_arr(it, st, shape, k, v):
    if isinstance(shape, tuple) and len(shape) == 1 and isinstance(shape[0], MSize):
        shape = shape[0]
    if isinstance(shape, MSize):
        return it.alloc_m(st, k, shape.shape, Fun(lambda idx: it.cast(v, k)), shape.mask)
    if is_num(shape):
        shape = (shape,)
    return it.alloc(st, k, tuple(_num(s) for s in shape), Fun(lambda idx: it.cast(v, k)))


def positions(it, m, st):
    """the increasing sequence of the indices where a one-dimensional condition holds"""
    eng = it.eng
    if not isinstance(m, ARRAYS) or m.ndim != 1:
        raise Unsupported('positions of %r' % (m,))
    rd, size = it.reader(st, m), tz(m.shape[0], 'int')
    outer = list(eng.loopvars)
    no = len(outer)
    nz, pos = (z3.Function(eng.fresh_name(x), *([INT] * (no + 2))) for x in ('FNZ', 'FPOS'))
    n = eng.fresh('fnz_n', 'int')
    kk = eng.fresh('fnz_k', 'int')
    kk = kk if not kk.children() else z3.Int(eng.fresh_name('fnz_kk'))
    cond_t = tz(truth(rd((kk,))))
    cond = lambda o, k: it.subst(cond_t, [(kk, k)] + list(zip(outer, o)))
    num = lambda o: it.subst(n, list(zip(outer, o)))
    top = lambda o: it.subst(size, list(zip(outer, o)))
    eng.define(n, [n >= 0, n <= size]) if n.children() else eng.base_facts.extend([n >= 0, n <= size])

    def f_nz(a):
        o, j = a[:no], a[no]
        k = nz(*a)
        return [z3.Implies(z3.And(j >= 0, j < num(o)), z3.And(k >= 0, k < top(o), cond(o, k), pos(*(list(o) + [k])) == j))]

    def f_pos(a):
        o, k = a[:no], a[no]
        j = pos(*a)
        return [z3.Implies(z3.And(k >= 0, k < top(o), cond(o, k)), z3.And(j >= 0, j < num(o), nz(*(list(o) + [j])) == k))]
    eng.defs.setdefault(nz.name(), []).append((f_nz, False))
    eng.defs.setdefault(pos.name(), []).append((f_pos, False))
    eng.pair_defs.setdefault(nz.name(), []).append(lambda a, b: z3.Implies(
        z3.And(*([x == y for x, y in zip(a[:no], b[:no])] + [a[no] >= 0, a[no] < b[no], b[no] < num(a[:no])])), nz(*a) < nz(*b)))
    eng.inverses[nz.name()] = lambda a, x: pos(*(list(a[:no]) + [x]))
    return it.alloc(st, 'int', (n,), Fun(lambda idx: nz(*(outer + [tz(idx[0], 'int')]))))


# functions of masked selections that act cell by cell (or are handled where they are)
CELLWISE = set(UN) | set(CM) | {'abs', 'absolute', 'fabs', 'maximum', 'fmax', 'minimum', 'fmin', 'where', 'flatnonzero', 'copy', 'array',
                                'asarray', 'square', 'power', 'float_power', 'negative', 'logical_and', 'logical_or', 'logical_not',
                                'invert', 'sign', 'any', 'all', 'zeros_like', 'ones_like', 'full_like'}


def np_call(it, name, args, kw, st):
    eng = it.eng
    if any(isinstance(x, (MArr, MIndex, MSize)) for x in list(args) + list(kw.values())):
        if not (name in CELLWISE and not ('out' in kw or 'where' in kw) or name in ('zeros', 'ones', 'full')):
            raise Unsupported('np.%s of a masked selection' % name)
    if name in UN:
        return it.pointwise(st, lambda x: eng.fn(UN[name], x), args[0])
    if name in ('abs', 'absolute', 'fabs'):
        return it.pointwise(st, vabs, args[0])
    if name in ('maximum', 'fmax', 'minimum', 'fmin'):
        f = vmax if name in ('maximum', 'fmax') else vmin
        a, b = args[0], args[1]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.name in ('inf', '-inf'):
                if (x.name == 'inf') == (f is vmin):
                    return y
                raise Unsupported('infinite result')
        r = it.pointwise(st, f, a, b)
        if kw.get('out') is not None:
            rd = it.reader(st, r)
            it.write_region(st, kw['out'], lambda i: True, rd)
            return kw['out']
        return r
    if name == 'clip':
        a, lo, hi = (list(args) + [None, None])[:3]
        lo = kw.get('a_min', lo)
        hi = kw.get('a_max', hi)
        r = a
        if lo is not None and not (isinstance(lo, Opaque)):
            r = it.pointwise(st, vmax, r, lo)
        if hi is not None and not (isinstance(hi, Opaque)):
            r = it.pointwise(st, vmin, r, hi)
        if kw.get('out') is not None:
            rd = it.reader(st, r)
            it.write_region(st, kw['out'], lambda i: True, rd)
            return kw['out']
        return r
    if name == 'where':
        if len(args) == 3:
            return it.pointwise(st, lambda c, a, b: ite(truth(c), _num(a), _num(b)), *args)
        raise Unsupported('np.where/1')
    if name in ('zeros', 'ones', 'empty'):
        k = dtype_kind(kw.get('dtype', args[1] if len(args) > 1 else None), 'real')
        if name == 'empty':
            shp = args[0] if isinstance(args[0], (tuple, list)) else (args[0],)
            return fresh_arr(it, st, k, tuple(_num(s) for s in shp), 'empty')
        return const_arr(it, st, args[0], k, 0 if name == 'zeros' else 1)
    if name == 'full':
        k = dtype_kind(kw.get('dtype', args[2] if len(args) > 2 else None), kind(args[1]))
        return const_arr(it, st, args[0], k, args[1])
    if name == 'flatnonzero' and isinstance(args[0], MArr):
        return MIndex(it.submask(st, args[0]), args[0].shape, args[0].mask)
    if name == 'flatnonzero' or (name == 'where' and len(args) == 1) or name == 'nonzero':
        r = positions(it, args[0], st)
        it.posmask[r.id] = (st.heap[r.id], MIndex(it.reader(st, args[0]), args[0].shape))
        return r if name == 'flatnonzero' else (r,)
    if name == 'finfo':
        return Opaque('finfo')
    if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        a = args[0]
        if is_num(a):
            return Fr(0) if name == 'zeros_like' else Fr(1)
        k = dtype_kind(kw.get('dtype'), a.kind)
        if isinstance(a, MArr):
            return const_arr(it, st, MSize(a), k, {'zeros_like': 0, 'ones_like': 1}.get(name, args[-1]))
        if name == 'empty_like':
            return fresh_arr(it, st, k, a.shape, 'empty')
        return const_arr(it, st, a.shape, k, {'zeros_like': 0, 'ones_like': 1}.get(name, args[-1]))
    if name in ('copy', 'array', 'asarray', 'ascontiguousarray', 'atleast_1d'):
        a = args[0]
        k = kw.get('dtype', args[1] if len(args) > 1 and name in ('array', 'asarray') else None)
        if isinstance(a, MArr):
            if k is None and name != 'atleast_1d':
                return arr_method(it, a, 'copy', [], {}, st) if name in ('copy', 'array') else a
            raise Unsupported('conversion of masked selection')
        if isinstance(a, (list, tuple)):
            return it.mk_list(st, a, dtype_kind(k, None))
        if is_num(a):
            return it.cast(a, dtype_kind(k, kind(a)))
        if name in ('asarray', 'ascontiguousarray', 'atleast_1d') and k is None:
            return a
        rd = it.reader(st, a)
        kk = dtype_kind(k, a.kind)
        return it.alloc(st, kk, a.shape, Fun(lambda idx: it.cast(rd(idx), kk)))
    if name in ('square',):
        return it.pointwise(st, lambda x: mul(x, x), args[0])
    if name in ('power', 'float_power'):
        return it.pointwise(st, eng.power, args[0], args[1])
    if name in ('add', 'subtract', 'multiply', 'divide', 'true_divide'):
        f = {'add': add, 'subtract': sub, 'multiply': mul}.get(name, div)
        r = it.pointwise(st, f, args[0], args[1])
        out = kw.get('out', args[2] if len(args) > 2 else None)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            wh = kw.get('where')
            rd = it.reader(st, r)
            it.write_region(st, out, it.reader(st, wh) if isinstance(wh, ARRAYS) else (lambda i: True), rd)
            return out
        return r
    if name == 'negative':
        return it.pointwise(st, neg, args[0])
    if name in CM:
        return it.pointwise(st, lambda a, b: cmp(CM[name], a, b), args[0], args[1])
    if name in ('logical_and', 'logical_or', 'logical_not', 'bitwise_and', 'bitwise_or', 'invert', 'logical_xor'):
        if name in ('logical_not', 'invert'):
            return it.pointwise(st, lambda a: b_not(truth(a)), args[0])
        f = b_and if 'and' in name else b_or
        return it.pointwise(st, lambda a, b: f(truth(a), truth(b)), args[0], args[1])
    if name == 'sign':
        return it.pointwise(st, lambda x: ite(cmp('>', x, 0), Fr(1), ite(cmp('<', x, 0), Fr(-1), Fr(0))), args[0])
    if name in ('isfinite',):
        return it.pointwise(st, lambda x: True, args[0])
    if name in ('isnan', 'isinf'):
        return it.pointwise(st, lambda x: False, args[0])
    if name == 'nan_to_num':
        return args[0]
    if name == 'arange':
        a = [_num(x) for x in args]
        lo, hi, stp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if kind(lo) != 'int' or kind(hi) != 'int' or kind(stp) != 'int':
            raise Unsupported('real arange')
        from .interp import RangeVal
        r = RangeVal(lo, hi, stp)
        return it.alloc(st, 'int', (r.trip(),), Fun(lambda idx: r.at(idx[0])))
    if name in ('sum', 'any', 'all', 'min', 'max', 'amin', 'amax', 'cumsum', 'mean', 'count_nonzero'):
        return arr_method(it, args[0], {'amin': 'min', 'amax': 'max'}.get(name, name), list(args[1:]), kw, st)
    if name == 'add.at':
        a, idx, v = args
        if not (isinstance(idx, ARRAYS) and idx.kind == 'int' and idx.ndim == 1):
            raise Unsupported('np.add.at index')
        ri = it.reader(st, idx)
        k, sh, rv = it.lift(st, v)

        def act(s, nu):
            j = (it.norm_idx(s, ri((nu,)), a.shape[0]),)
            cur = it.reader(s, a)(j)
            it.write_point(s, a, j, add(cur, rv((nu,)) if sh is not None else rv(None)))
        it.array_loop(st, idx.shape[0], act)
        return None
    if name in ('argsort', 'sort') and len(args) == 1 and not kw and isinstance(args[0], ARRAYS):
        if name == 'sort':
            return it.alloc(st, args[0].kind, args[0].shape, Fun(resorted(it, args[0], st, False)[0]))
        a = args[0]
        pm = it.perms.get(getattr(a, 'id', None))
        if pm is not None and pm[0] is st.heap.get(a.id):       # sorting a permutation gives its inverse
            return it.alloc(st, 'int', a.shape, Fun(pm[1]))
        _, perm, inv = resorted(it, a, st, True)
        r = it.alloc(st, 'int', a.shape, Fun(perm))
        it.perms[r.id] = (st.heap[r.id], inv)
        return r
    if name == 'searchsorted':
        a, x = args[0], args[1]
        side = kw.get('side', args[2] if len(args) > 2 else 'left')
        if not is_num(x):
            raise Unsupported('vector searchsorted')
        ra = it.reader(st, a)
        n = a.shape[0]
        ix = eng.fresh('ss', 'int')
        lt, ge = ('<', '>=') if side == 'left' else ('<=', '>')

        def facts():
            f = [b_and(cmp('>=', ix, 0), cmp('<=', ix, n)),
                 b_or(cmp('<=', ix, 0), cmp(lt, ra((sub(ix, 1),)), x)),
                 b_or(cmp('>=', ix, n), cmp(ge, ra((ix,)), x))]
            return [tz(q) for q in f]
        eng.define(ix, facts())
        # every position before ix is < x, every later one >= x (sorted input is a precondition)
        it.ss_facts = getattr(it, 'ss_facts', [])
        it.ss_facts.append((ix, ra, n, x))
        return ix
    if name in ('dot', 'matmul'):
        return it.matmul(args[0], args[1], st)
    if name == 'linalg.solve':
        return lin_solve(it, args[0], args[1], st)
    if name == 'eye' or name == 'identity':
        n = args[0]
        return it.alloc(st, 'real', (n, n), Fun(lambda i: ite(cmp('==', i[0], i[1]), Fr(1), Fr(0))))
    if name == 'diff':
        a = args[0]
        rd = it.reader(st, a)
        return it.alloc(st, a.kind, (sub(a.shape[0], 1),), Fun(lambda i: sub(rd((add(i[0], 1),)), rd(i))))
    if name in ('concatenate', 'hstack') and isinstance(args[0], (list, tuple)) and all(
            isinstance(x, ARRAYS + (list,)) for x in args[0]):
        parts = [it.lift(st, x) for x in args[0]]
        if any(len(p[1]) != 1 for p in parts):
            raise Unsupported('concatenate 2d')
        tot = 0
        offs = []
        for p in parts:
            offs.append(tot)
            tot = add(tot, p[1][0])
        k = 'real' if any(p[0] == 'real' for p in parts) else parts[0][0]

        def rd(idx):
            r = it.cast(parts[-1][2]((sub(idx[0], offs[-1]),)), k)
            for p, o, o2 in reversed(list(zip(parts[:-1], offs[:-1], offs[1:]))):
                r = ite(cmp('<', idx[0], o2), it.cast(p[2]((sub(idx[0], o),)), k), r)
            return r
        return it.alloc(st, k, (tot,), Fun(rd))
    if name in ('float64', 'float32'):
        return it.pointwise(st, lambda x: it.cast(x, 'real'), args[0])
    if name in ('squeeze', 'ravel'):
        if isinstance(args[0], ARRAYS) and args[0].ndim == 1:
            return args[0]
        raise Unsupported(name)
    if name == 'hypot':
        return it.pointwise(st, lambda a, b: eng.fn('SQRT', add(mul(a, a), mul(b, b))), args[0], args[1])
    if name == 'outer':
        ra, rb = it.reader(st, args[0]), it.reader(st, args[1])
        return it.alloc(st, 'real', (args[0].shape[0], args[1].shape[0]),
                        Fun(lambda i: mul(ra((i[0],)), rb((i[1],)))))
    if name == 'fill_diagonal':
        a, v = args
        k, sh, rv = it.lift(st, v)
        it.write_region(st, a, lambda i: cmp('==', i[0], i[1]),
                        lambda i: rv((i[0],)) if sh is not None else rv(None))
        return None
    if 'np.' + name in it.summaries:
        it.called_summaries.add('np.' + name)
        return it.summaries['np.' + name](it, args, kw, st)
    raise Unsupported('np.' + name)


def fresh_arr(it, st, k, shape, base):
    eng = it.eng
    ext = list(eng.loopvars)
    f = z3.Function(eng.fresh_name(base), *([INT] * (len(ext) + len(shape)) + [SORTS[k]]))
    return it.alloc(st, k, shape, Fun(lambda idx: f(*(ext + [tz(i, 'int') for i in idx]))), base)


def lin_solve(it, A, b, st):
    """x with A x = b (existence assumed: the routine raises on singular matrices)"""
    eng = it.eng
    x = fresh_arr(it, st, 'real', (b.shape[0],), 'linsolve')
    it.linsolves = getattr(it, 'linsolves', [])
    it.linsolves.append((it.reader(st, A), it.reader(st, b), it.reader(st, x), b.shape[0]))
    return x


def resorted(it, a, st, distinct):
    """contract of sorting an array that is increasing except for the one item last stored into it: that item is rotated
    to its place and the others keep their order (precondition, an obligation: the others increase, and differ from it)"""
    from .core import PointWrite
    eng = it.eng
    if a.ndim != 1:
        raise Unsupported('sort of 2d array')
    base = a.base if isinstance(a, View) else a
    c = st.heap[base.id]
    if not isinstance(c, PointWrite):
        raise Unsupported('sort of an array that is not nearly sorted')
    n, v = a.shape[0], c.val
    if isinstance(a, View):
        ok, (p,) = a.inv(c.idx)
        fwd = a.fwd
    else:
        ok, (p,), fwd = True, c.idx, lambda i: i
    p = z3.simplify(tz(p, 'int')) if is_sym(p) else p
    rest = lambda j: c.prev.read(fwd((j,)))
    i, j = eng.fresh('gi', 'int'), eng.fresh('gi', 'int')
    rng = lambda x: b_and(cmp('>=', x, 0), cmp('<', x, n))
    it.callee_pre.append(('sort: the item moved is in the array', list(st.pc), b_and(ok, rng(p)), list(eng.loopvars)))
    it.callee_pre.append(('sort: the other items increase', list(st.pc) + [rng(i), rng(j), cmp('<', i, j), cmp('!=', i, p), cmp('!=', j, p)], cmp('<', rest(i), rest(j)), list(eng.loopvars)))
    if distinct:
        it.callee_pre.append(('sort: the other items differ from the one moved', list(st.pc) + [rng(i), cmp('!=', i, p)], cmp('!=', rest(i), v), list(eng.loopvars)))
    s = eng.fresh('place', 'int')
    others = lambda t: ite(cmp('<', t, p), rest(t), rest(add(t, 1)))
    le = '<' if distinct else '<='
    eng.define(s, [tz(x) for x in (rng(s), b_or(cmp('<', s, 1), cmp(le, others(sub(s, 1)), v)), b_or(cmp('>', s, sub(n, 2)), cmp(le, v, others(s))))])

    def perm(t):
        lo = ite(cmp('<', t, p), t, ite(cmp('<', t, s), add(t, 1), ite(cmp('==', t, s), p, t)))       # moved down the array
        up = ite(cmp('<', t, s), t, ite(cmp('==', t, s), p, ite(cmp('<=', t, p), sub(t, 1), t)))
        return ite(cmp('<=', p, s), lo, up)

    def inv(t):
        lo = ite(cmp('<', t, p), t, ite(cmp('==', t, p), s, ite(cmp('<=', t, s), sub(t, 1), t)))
        up = ite(cmp('<', t, s), t, ite(cmp('==', t, p), s, ite(cmp('<', t, p), add(t, 1), t)))
        return ite(cmp('<=', p, s), lo, up)
    P = named(eng, 'perm', perm)
    return named(eng, 'sorted', lambda t: ite(cmp('==', t, s), v, rest(P((t,)))), a.kind), P, named(eng, 'inverse', inv)


def named(eng, base, f, knd='int'):
    """a function of one position, by name; every use of it carries its definition"""
    t = z3.Int(eng.fresh_name('t'))
    g = eng.fresh(base, knd, (t,))
    eng.define(g, [g == tz(f(t), knd)])
    return lambda idx: z3.substitute(g, (t, tz(idx[0], 'int')))


def arr_method(it, o, name, args, kw, st):
    eng = it.eng
    if name == 'sort' and isinstance(o, ARRAYS) and not args and not kw:
        rd = resorted(it, o, st, False)[0]
        it.write_region(st, o, lambda i: True, rd)
        return None
    if name == 'argsort' and isinstance(o, ARRAYS) and not args and not kw:
        return np_call(it, 'argsort', [o], {}, st)
    if is_num(o):
        if name == 'astype':
            return it.cast(o, dtype_kind(args[0], None))
        return o
    if isinstance(o, MArr):
        rd, m = it.reader(st, o), o.mask
        if name in ('astype', 'copy') and not kw:
            k = dtype_kind(args[0], None) if name == 'astype' else o.kind
            return it.alloc_m(st, k, o.shape, Fun(lambda i: it.cast(rd(i), k)), m)
        if name in ('any', 'all') and not args and not kw and len(o.shape) == 1:
            f = (lambda i: b_and(truth(m(i)), truth(rd(i)))) if name == 'any' else (lambda i: b_or(b_not(truth(m(i))), truth(rd(i))))
            return arr_method(it, it.alloc(st, 'bool', o.shape, Fun(f)), name, [], {}, st)
        raise Unsupported('method %s of masked selection' % name)
    if name == 'copy':
        rd = it.reader(st, o)
        return it.alloc(st, o.kind, o.shape, Fun(rd))
    if name == 'astype':
        k = dtype_kind(args[0], None)
        rd = it.reader(st, o)
        return it.alloc(st, k, o.shape, Fun(lambda i: it.cast(rd(i), k)))
    if name == 'fill':
        v = args[0]
        it.write_region(st, o, lambda i: True, lambda i: v)
        return None
    if name in ('ravel', 'flatten', 'squeeze'):
        if o.ndim == 1:
            return o
        raise Unsupported(name)
    if name == 'sum':
        if args or kw:
            raise Unsupported('axis sum')
        if o.ndim != 1:
            raise Unsupported('sum 2d')
        rd = it.reader(st, o)
        outer = list(eng.loopvars)
        n = o.shape[0]
        c = conc(n)
        if c is not None and c <= 16:
            r = 0
            for j in range(c):
                r = add(r, rd((j,)))
            return r
        k = 'int' if o.kind in ('bool', 'int') else 'real'

        def summ(v, oo, idx):
            return it.subst(tz(it.cast(rd((v,)), k)), list(zip(outer, oo)))
        return it.new_sum(outer, 0, summ, k)(outer, (), n)
    if name in ('min', 'max'):
        if args or kw or o.ndim != 1:
            raise Unsupported('axis min')
        rd = it.reader(st, o)
        n = o.shape[0]
        c = conc(n)
        if c is not None and 0 < c <= 16:
            r = rd((0,))
            for j in range(1, c):
                r = vmax(r, rd((j,))) if name == 'max' else vmin(r, rd((j,)))
            return r
        m = eng.fresh(name, o.kind)
        w = eng.fresh('arg' + name, 'int')
        op = '>=' if name == 'max' else '<='
        eng.define(m, [tz(b_and(w >= 0, cmp('<', w, n), cmp('==', m, rd((w,)))))])
        eng.define(m, [tz(cmp(op, m, rd((0,)))), tz(cmp(op, m, rd((sub(n, 1),))))])
        params = list(m.children())

        def univ(a, h):
            e = z3.Implies(tz(b_and(cmp('>=', h, 0), cmp('<', h, n))), tz(cmp(op, m, rd((h,)))))
            return [it.subst(e, list(zip(params, a)))]
        eng.univ.setdefault(m.decl().name(), []).append(univ)
        return m
    if name in ('any', 'all'):
        if args or kw or o.ndim != 1:
            raise Unsupported('axis any')
        rd = it.reader(st, o)
        n = o.shape[0]
        c = conc(n)
        if c is not None and c <= 16:
            bs = [truth(rd((j,))) for j in range(c)]
            return b_or(*bs) if name == 'any' else b_and(*bs)
        g = truth(rd((z3.Int('gi!0'),)))
        if conc(g) is not None:
            if name == 'all' and conc(g) is True:
                return True
            if name == 'any' and conc(g) is False:
                return False
        b = eng.fresh(name, 'bool')
        w = eng.fresh('wit', 'int')
        params = list(b.children())

        def pos(h):
            return tz(b_and(cmp('>=', h, 0), cmp('<', h, n), truth(rd((h,)))))

        def negp(h):
            return tz(b_and(cmp('>=', h, 0), cmp('<', h, n), b_not(truth(rd((h,))))))
        if name == 'any':
            eng.define(b, [z3.Implies(b, pos(w))])
            u = lambda a, h: [it.subst(z3.Implies(pos(h), b), list(zip(params, a)))]
        else:
            eng.define(b, [z3.Implies(z3.Not(b), negp(w))])
            u = lambda a, h: [it.subst(z3.Implies(negp(h), z3.Not(b)), list(zip(params, a)))]
        eng.univ.setdefault(b.decl().name(), []).append(u)
        return b
    if name == 'mean':
        s = arr_method(it, o, 'sum', [], {}, st)
        return div(s, o.shape[0])
    if name == 'dot':
        return it.matmul(o, args[0], st)
    if name == 'item' and not args:
        return it.reader(st, o)(tuple(0 for _ in o.shape))
    raise Unsupported('array method ' + name)
