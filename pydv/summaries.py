"""Callee contracts used in place of bodies (modular reasoning).

havoc(outputs, result): the callee may write the arrays passed as the named parameters, and nothing else; what it
writes and returns is unconstrained.  The frame is what the contract that interprets the body states; values of
havoced arrays are arbitrary, so an obligation proved with them holds for whatever the body computes."""
import z3
from .core import *
from .core import conc


def fresh(it, st, kind, shape, nm):
    f = z3.Function(it.eng.fresh_name('hv!' + nm), *([INT] * len(shape) + [SORTS[kind]]))
    return Fun(lambda idx, f=f: f(*[tz(i, 'int') for i in idx]))


def havoc(outputs=(), result=None):
    """result: None | name of the parameter whose shape and kind the returned array has"""
    def call(it, bound, kw, st):
        if it.eng.loopvars:
            raise Unsupported('summary inside a loop')
        for nm in outputs:
            a = bound[nm]
            if not isinstance(a, Arr):
                raise Unsupported('summary output ' + nm)
            st.heap[a.id] = fresh(it, st, a.kind, a.shape, nm)
        if result is None:
            return 1
        a = bound[result]
        r = Arr('real', a.shape, 'hv')
        st.heap[r.id] = fresh(it, st, 'real', a.shape, 'ret')
        return r
    return call


def bounded_root(it, bound, kw, st):
    """contract of bounded_newton_raphson: the result lies between the bounds (proved); it is the zero of a monotone
    function whose values at the bounds differ in sign, and the bound of the smaller value if both are positive (checked on
    real calls, up to the tolerance)"""
    eng = it.eng
    f, lo, hi, args = (bound[x] for x in ('f', 'x_lb', 'x_ub', 'args'))
    r = eng.fresh('root', 'real')
    ev = lambda x: it.call(f, [x, args], {}, st)
    gr, gl, gh = ev(r), ev(lo), ev(hi)
    eng.define(r, [tz(x) for x in (
        b_and(cmp('>=', r, vmin(lo, hi)), cmp('<=', r, vmax(lo, hi))),
        b_or(b_not(b_and(cmp('>=', gl, 0), cmp('<=', gh, 0))), cmp('==', gr, 0)),
        b_or(b_not(b_and(cmp('>', gl, 0), cmp('>', gh, 0), cmp('<', gh, gl))), cmp('==', r, hi)))])
    return r


def ga_newton(it, bound, kw, st):
    """contract of run_green_ampt_newton, cell by cell (proved from that of bounded_newton_raphson)"""
    eng = it.eng
    names = ('F_1', 'dt', 'Ks', 'theta_d', 'psi_f', 'ia')
    F2 = bound['F_2']
    xs = [bound[x] for x in names]
    if not all(isinstance(x, MArr) and it.same_mask(st, x, F2) for x in xs + [F2, bound['x0']]):
        raise Unsupported('infiltration of cells of different selections')
    if bound['bounded'] is not True:
        raise Unsupported('unbounded iteration')
    name = 'GAROOT'
    R = eng.math.get(name)
    if R is None:
        R = eng.math[name] = z3.Function(name, *([REAL] * 7))

        def facts(a):
            F1, dt, Ks, th, ps, ia = a
            r = R(*a)
            ub = F1 + ia * dt
            LOG = eng.math['LOG']
            g = lambda x: Ks * dt + F1 - ps * th * LOG(F1 + vabs(ps) * th) + ps * th * LOG(x + vabs(ps) * th) - x
            pre = z3.And(F1 >= 0, dt >= 0, Ks * dt >= 0, ps > 0, th > 0, ps * th > 0, ia * dt >= 0)
            return [z3.Implies(pre, z3.And(r >= F1, r <= ub, z3.If(g(ub) > 0, r == ub, g(r) == 0)))]
        eng.defs.setdefault(name, []).append((facts, False))
    rd = [it.reader(st, x) for x in xs]
    st.heap[F2.id] = Fun(lambda idx: R(*[tz(it.cast(x(idx), 'real')) for x in rd]))
    return F2


NAMED = {'bounded_root': bounded_root, 'ga_newton': ga_newton}


def by_contract(mask, writes, posts, pre=()):
    """an elementwise callee, replaced by its own (separately proved) contract: pre(q, a, i) becomes an obligation of the
    caller, the attributes in `writes` take arbitrary values where `mask` holds and keep theirs elsewhere, and what the
    posts say of element i is assumed of the new values of element i"""
    def call(it, bound, kw, st):
        from .spec import SymQ, SymArr, V, unw
        eng = it.eng
        if eng.loopvars:
            raise Unsupported('contract call inside a loop')
        o = bound['self']
        d = st.objs[o.id]

        def frozen(v):
            if isinstance(v, ARRAYS):
                return SymArr(None, it.reader(st, v), v.shape, v.kind)
            return V(v) if is_num(v) else v
        old = {k: frozen(v) for k, v in d.items() if isinstance(v, ARRAYS) or is_num(v)}
        args = {k: frozen(v) for k, v in bound.items() if k != 'self'}
        old.update({'arg.' + k: v for k, v in args.items()})
        sel = args[mask]
        n = sel.shape[0]
        rng = lambda i: b_and(cmp('>=', i, 0), cmp('<', i, n))
        Q = Collect(it, old, None, args, {})
        for label, p in pre:
            gi = eng.fresh('gi', 'int')
            it.callee_pre.append(('%s: %s' % (label, mask), list(st.pc) + [tz(rng(gi))], truth(unw(p(Q, Q.old, V(gi)))), [gi]))
        fs = {}
        for nm in writes:
            a = d[nm]
            if a.kind not in SORTS or len(a.shape) != 1 or not isinstance(a, Arr):
                raise Unsupported('contract of an attribute ' + nm)
            f = z3.Function(eng.fresh_name('cc!' + nm), INT, SORTS[a.kind])
            fs[nm] = (f, a)
        newv = dict(old)
        for nm, (f, a) in fs.items():
            rd = lambda idx, f=f, nm=nm: ite(truth(unw(sel[V(idx[0])])), f(tz(idx[0], 'int')), unw(old[nm][V(idx[0])]))
            st.heap[a.id] = Fun(rd)
            newv[nm] = SymArr(None, lambda idx, f=f: f(tz(idx[0], 'int')), a.shape, a.kind)
        Q.new = newv
        memo, cur, done = {}, {}, {}
        Q.args = dict(args)
        got = []
        Q.got = got
        for p in posts:
            p(Q)

        def build(x):
            k = x[0].get_id()
            if k not in done:
                done[k] = (x[0], build1(x))
            return done[k][1]

        def build1(x):
            i = V(x[0])
            here = b_and(rng(x[0]), truth(unw(sel[i])))
            g = b_not(here)
            memo.clear()
            cur.update(old={k: Resolved(v, tz(here), memo) if isinstance(v, SymArr) else v for k, v in old.items()})
            Q.old = cur['old']
            for k, v in args.items():
                Q.args[k] = Resolved(v, tz(here), memo) if isinstance(v, SymArr) else v
            out = []
            for nm, body, when in got:
                h = g if when is None else b_or(g, b_not(truth(unw(when(i)))))
                if conc(h) is True:
                    continue
                out.append(tz(b_or(h, truth(unw(body(i))))))
            return out
        for nm, (f, a) in fs.items():
            eng.defs.setdefault(f.name(), []).append((build, False))
        return None
    return call


class Resolved:
    """array read where an assumption holds: choices that the assumption decides are taken"""
    def __init__(self, a, asm, memo):
        self.a, self.asm, self.memo = a, asm, memo

    def __getitem__(self, i):
        from .spec import V, unw
        v = unw(self.a[i])
        return V(resolve(v, self.asm, self.memo)) if is_sym(v) else V(v)


def resolve(v, asm, memo):
    def decided(c):
        k = c.get_id()
        if k not in memo:
            r = None
            for want, x in ((True, z3.Not(c)), (False, c)):
                s = z3.Solver()
                s.set('timeout', 300)
                s.add(asm, x)
                if s.check() == z3.unsat:
                    r = want
                    break
            memo[k] = (r, c)
        return memo[k][0]

    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = x.children()
            d = decided(c)
            if d is not None:
                return go(a if d else b)
            return z3.If(c, go(a), go(b))
        if z3.is_app(x) and x.num_args() and not z3.is_quantifier(x):
            ch = [go(y) for y in x.children()]
            if any(not p.eq(q) for p, q in zip(ch, x.children())):
                return x.decl()(*ch)
        return x
    return go(v)


def Collect(it, old, new, args, dims):
    from .spec import SymQ

    class C(SymQ):
        def each(self, name, ranges, body, when=None, hints=None):
            if len(ranges) != 1:
                raise Unsupported('contract that is not elementwise')
            self.got.append((name, body, when))

        def check(self, name, cond, when=None):
            raise Unsupported('contract that is not elementwise')

        def arg(self, k):
            return self.args[k]
    q = C(it, old, new, args, None, dims)
    q.old, q.new = old, new
    return q


def sample_of(eng, xp, fp, x, method):
    """the sample as a function of the point, the method and the column, one function per data set"""
    f = z3.Function('sample!%d!%d' % (xp.id, fp.id), REAL, INT, INT, REAL)
    return lambda idx: f(tz(x, 'real'), tz(method, 'int'), tz(idx[0], 'int'))


def sample(it, bound, kw, st):
    """contract of interpolate_sample (proved): the value is a function of the data, the point and the method"""
    xp, fp = bound['xp'], bound['fp']
    if not isinstance(xp, Arr) or not isinstance(fp, Arr) or not xp.name.endswith('.index.values') or not fp.name.endswith('.values'):
        raise Unsupported('sample of derived data')
    r = Arr('real', (fp.shape[1],), 'sample')
    st.heap[r.id] = Fun(sample_of(it.eng, xp, fp, bound['x'], bound['method']))
    it.frozen.add(r.id)
    return r


NAMED['sample'] = sample
