"""C27 adaptive step sizes: limits, formulas, error estimate; and what a simulation step does as a whole (bounded)."""
from .base import Contract, scen, Real, Int, Bool


class LIM:
    SCHEMA = {}
    SCALARS = {k: ('real',) for k in 'dt min_dt max_dt tol min_rel_change max_rel_change safety_factor'.split()}
    CONSTS = {}
    INVARIANT = [('fact', lambda q, a: q.And(a['dt'] > 0, a['min_dt'] > 0, a['min_dt'] <= a['max_dt'], a['tol'] > 0, a['min_rel_change'] > 0,
                                             a['min_rel_change'] <= a['max_rel_change'], a['safety_factor'] > 0))]

    @staticmethod
    def make(g, cls, s, over, c):
        o = cls.__new__(cls)
        r = g.r
        o.min_dt = r.choice([.1, 1.])
        o.max_dt = o.min_dt * r.choice([1., 5., 200.])
        o.dt = r.choice([1., 5., 60.])
        o.tol = r.choice([.01, 1.])
        o.min_rel_change, o.max_rel_change = r.choice([(1e-10, 1e10), (.5, 2.)])
        o.safety_factor = r.choice([.9, 1.])
        o.err = r.choice([None, 0., 1e-4, .3, 20., -2.])
        o.dts, o.errs = tuple(r.uniform(.5, 60) for _ in range(3)), tuple(10 ** r.uniform(-4, 1) for _ in range(3))
        return o


EPS = 2.0 ** -52


def opt(q, nm):
    """the option given, else the attribute"""
    return q.arg(nm) if q.has(nm) else q.old[nm]


def clip(q, x, lo, hi):
    return q.min(q.max(x, lo), hi)


def post_compute(q):
    r, dt = q.ret, opt(q, 'dt')
    if 'no error' in q.scenario:
        q.check('step size is kept', q.same(r, dt))
        return
    err = q.max(q.abs(opt(q, 'err')), q.rat(1, 2 ** 52))
    lo, hi = opt(q, 'min_dt'), opt(q, 'max_dt')
    q.check('within the limits', q.And(r >= lo, r <= hi))
    ch = clip(q, q.sqrt(q.div(q.div(opt(q, 'tol'), 2.0), err)), opt(q, 'min_rel_change'), opt(q, 'max_rel_change'))
    q.check('new step size', q.eq(r, clip(q, opt(q, 'safety_factor') * dt * ch, lo, hi)))


PK = 'dt err min_dt max_dt tol min_rel_change max_rel_change safety_factor'.split()
POSP = ('fact', lambda q, a: q.And(a['arg.dt'] > 0, a['arg.min_dt'] > 0, a['arg.min_dt'] <= a['arg.max_dt'], a['arg.tol'] > 0,
                                   a['arg.min_rel_change'] > 0, a['arg.min_rel_change'] <= a['arg.max_rel_change'], a['arg.safety_factor'] > 0))


def gen_compute(g, s, np, obj, args):
    r = g.r
    a = dict(dt=r.choice([1., 10.]), err=r.choice([0., 1e-3, .2, 5., -1.]), min_dt=r.choice([.5, 2.]), tol=r.choice([.1, 1.]), min_rel_change=r.choice([1e-6, .5]),
             max_rel_change=r.choice([1.5, 100.]), safety_factor=r.choice([.8, 1.]))
    a['max_dt'] = a['min_dt'] * r.choice([1., 30.])
    return {k: a[k] for k in args}


def known_error(g, o, np):
    if o.err is None:
        o.err = .02


def short(g, o, np):
    o.dts, o.errs = o.dts[:2], o.errs[:2]


Contract('step_size', 'C27', 'simulation.Simulation.compute_step_size', post_compute, schema=LIM, gen=gen_compute, scenarios=[
    scen('defaults', attrs={'err': Real()}, prepare=known_error), scen('no error known', attrs={'err': None}), scen('all given', args={k: Real() for k in PK}, attrs={'err': None}, facts=[POSP]),
    scen('error given', args={'err': Real()}, attrs={'err': None})])


def hist(q, nm, j):
    if q.has(nm):
        return q.item(nm, j)
    return q.old['%s.%d' % (nm, j)] if q.symbolic else q.real(getattr(q.obj, nm)[j])


def post_filter(q):
    lo, hi = opt(q, 'min_dt'), opt(q, 'max_dt')
    if q.scenario == 'short history':
        q.check('step size is kept', q.same(q.ret, hist(q, 'dts', 0)))
        return
    d, e = ([hist(q, nm, j) for j in range(3)] for nm in ('dts', 'errs'))
    c = [q.item('coeffs', j) for j in range(5)] if q.has('coeffs') else [0.5, 0.5, 0.0, 0.5, 0.0]
    tol = q.arg('tol') if q.has('tol') else 0.5
    k = q.arg('k') if q.has('k') else 2
    q.check('within the limits', q.And(q.ret >= lo, q.ret <= hi))
    f = q.pow(q.div(tol, e[0]), q.div(c[0], k)) * q.pow(q.div(tol, e[1]), q.div(c[1], k)) * q.pow(q.div(tol, e[2]), q.div(c[2], k)) * q.pow(
        q.div(d[0], d[1]), 0 - c[3]) * q.pow(q.div(d[1], d[2]), 0 - c[4])
    sf = q.arg('safety_factor') if q.has('safety_factor') else 1.0
    f = clip(q, f, opt(q, 'min_rel_change'), opt(q, 'max_rel_change'))
    q.check('new step size', q.eq(q.ret, clip(q, sf * f * d[0], lo, hi)))


T3, T5 = ('tuple',) + (Real(),) * 3, ('tuple',) + (Real(),) * 5
POSH = ('fact', lambda q, a: q.And(*[a['%s.%d' % (nm, j)] > 0 for nm in ('dts', 'errs') for j in range(3)]))
POSG = ('fact', lambda q, a: q.And(*[a['arg.%s.%d' % (nm, j)] > 0 for nm in ('dts', 'errs') for j in range(3)]))


def gen_filter(g, s, np, obj, args):
    r = g.r
    a = gen_compute(g, s, np, obj, {k: 0 for k in 'min_dt max_dt tol min_rel_change max_rel_change safety_factor'.split()})
    a['dts'] = [10 ** r.uniform(-1, 2) for _ in range(3)]
    a['errs'] = [10 ** r.uniform(-4, 1) for _ in range(3)]
    a['coeffs'] = r.choice([obj_h for obj_h in ([1, 0, 0, 0, 0], [1 / 6, 1 / 6, 0, 0, 0], [1 / 4, 1 / 2, 1 / 4, 3 / 4, 1 / 4], [1 / 3, 1 / 18, -5 / 18, -5 / 6, -1 / 6])])
    a['k'] = r.choice([1., 2., 3.])
    return {k: a[k] for k in args}


FK = {k: Real() for k in 'tol min_dt max_dt min_rel_change max_rel_change safety_factor k'.split()}
FPOS = ('fact', lambda q, a: q.And(a['arg.min_dt'] > 0, a['arg.min_dt'] <= a['arg.max_dt'], a['arg.tol'] > 0, a['arg.min_rel_change'] > 0,
                                   a['arg.min_rel_change'] <= a['arg.max_rel_change'], a['arg.safety_factor'] > 0, a['arg.k'] > 0))
Contract('step_filter', 'C27', 'simulation.Simulation.filter_step_size', post_filter, schema=LIM, gen=gen_filter, rtol=1e-6, scenarios=[
    scen('defaults', attrs={'dts': T3, 'errs': T3}, facts=[POSH]), scen('short history', attrs={'dts': ('tuple', Real(), Real()), 'errs': ('tuple', Real(), Real())}, prepare=short),
    scen('all given', args={'dts': T3, 'errs': T3, 'coeffs': T5, **FK}, facts=[FPOS, POSG])])


# ---------------------------------------------------------------- error estimate
class ERR:
    SCHEMA = {'model.H_j': ('real', ('J',)), 'model.states.H_j': ('real', ('J',))}
    NESTED = {'model': 'nsuperlink.nSuperLink'}
    SCALARS = {}
    CONSTS = {}
    INVARIANT = []


def post_scaled(q):
    o, e = q.old, q.arg('err')
    q.each('error relative to the tolerance of the head', ['J'], lambda j: q.eq(q.ret[j], q.div(
        q.abs(e[j]), q.rat(1, 10 ** 6) + q.rat(1, 1000) * q.max(q.abs(o['model.H_j'][j]), q.abs(o['model.states.H_j'][j])))))
    q.each('scaled errors are not negative', ['J'], lambda j: q.ret[j] >= 0)
    for nm in ERR.SCHEMA:
        q.each('%s is left alone' % nm, ['J'], lambda j, nm=nm: q.same(q.new[nm][j], o[nm][j]))


Contract('scaled_error', 'C27', 'simulation.Simulation._scaled_error', post_scaled, schema=ERR, params={'err': Real('J')}, rac='none')


def post_normed(q):
    e, n = q.arg('scaled_err'), q.dim('J')
    q.check('positive', q.ret > 0)
    lo = q.rat(1, 2 ** 52)
    if q.scenario == 'mean':
        want = q.div(q.sum(n, lambda j: e[j]), n)
    elif q.scenario == 'root mean square':
        want = q.sqrt(q.div(q.sum(n, lambda j: e[j] * e[j]), n))
    elif q.scenario == 'largest':
        q.each('no error is larger', ['J'], lambda j: q.abs(e[j]) <= q.ret)
        return
    else:
        want = q.div(q.sum(n, lambda j: q.ite(e[j] > 0, 1.0, 0.0)), n)
    q.check('norm of the errors', q.eq(q.ret, q.max(q.abs(want), lo)))


class EMPTY:
    SCHEMA, SCALARS, CONSTS, INVARIANT = {}, {}, {}, []


Contract('normed_error', 'C27', 'simulation.Simulation._normed_error', post_normed, schema=EMPTY, params={'scaled_err': Real('J')}, dims={'J': 'pos'}, rac='none',
         facts=[('elem', 'arg_scaled_err', lambda q, a, j: a['arg.scaled_err'][j] >= 0)],
         scenarios=[scen('share', args={'norm': 0}), scen('mean', args={'norm': 1}), scen('root mean square', args={'norm': 2}), scen('largest', args={'norm': -1})])


# ---------------------------------------------------------------- a whole simulation step (bounded)
class SIMS:
    SCHEMA, SCALARS, CONSTS, INVARIANT = {}, {}, {}, []

    @staticmethod
    def make(g, cls, s, over, c):
        from .c26_forcing import SIMR
        o = SIMR.make(g, cls, s, over, c)
        o.min_dt = g.r.choice([.3, 1.])
        for _ in range(g.r.randint(0, 2)):
            o.step(dt=1.)
        return o


def run_adaptive(obj, args):
    import copy
    import numpy as np
    from .c26_forcing import sampled
    m, (data, keep, opts) = obj.model, obj._vp
    method = opts['interpolation_method'].lower()
    par = {'Q_in': 'Q_in', 'H_bc': 'H_bc', 'Q_Ik': 'Q_0Ik'}

    def go(x, dt, n):
        for _ in range(n):
            f = {pr: sampled(np, keep[nm], x.t + dt, method, x, nm != 'Q_Ik') if keep[nm] is not None else None for nm, pr in par.items()}
            x.step(dt=dt, banded=x.banded, **f)
        return x
    dt, sub, retries, tol, norm = (args[k] for k in ('dt', 'subdivisions', 'retries', 'tol', 'norm'))
    ref, fuzzy, err = None, False, None
    while True:
        ref = go(copy.deepcopy(m), dt / sub if sub > 1 else dt, max(sub, 1))
        err = None
        if sub > 1:
            co = go(copy.deepcopy(m), dt, 1)
            with np.errstate(all='ignore'):
                e = np.abs(co.H_j - ref.H_j) / (1e-6 + 1e-3 * np.maximum(np.abs(ref.H_j), np.abs(ref.states['H_j'])))
                err = {0: lambda: np.mean(e > 0), 1: lambda: np.mean(e), 2: lambda: np.sqrt(np.mean(e ** 2)), -1: lambda: np.max(e)}[norm]()
            err = max(float(err), 2. ** -52)
            if not err < 1e6:
                return None
            fuzzy |= abs(err - tol) < 1e-3 * tol or norm == 0
        if err is None or not retries or err <= tol or dt / 2 <= obj.min_dt:
            break
        dt, retries = dt / 2, retries - 1
    if not np.isfinite(ref.H_j).all() or np.abs(ref.H_j).max() > 1e4:
        return None
    t0 = m.t
    kw = dict(args)
    obj.step(**kw)
    if fuzzy:
        return None
    return dict(t0=t0, t=m.t, dt=dt, err=err, got_err=obj.err, got_dt=obj.dt, last=obj.dts[0], lerr=obj.errs[0], H=np.copy(m.H_j), want=ref.H_j,
                Q=np.copy(m.Q_ik), wantQ=ref.Q_ik)


def post_adaptive(q):
    import numpy as np
    r = q.ret
    if r is None:
        return
    q.check('time advances by the accepted step', abs(r['t'] - r['t0'] - r['dt']) < 1e-9 * (1 + abs(r['t'])))
    q.check('accepted step is remembered', r['got_dt'] == r['dt'] and r['last'] == r['dt'])
    q.check('error estimate is remembered', (r['err'] is None) == (r['got_err'] is None) and r['lerr'] == r['got_err'])
    if r['err'] is not None:
        q.check('error estimate compares coarse and fine steps', abs(r['err'] - r['got_err']) <= 1e-6 + 1e-4 * r['err'])
    q.check('heads are those of the fine steps of the accepted size', np.allclose(r['H'], r['want'], rtol=1e-6, atol=1e-7))
    q.check('flows are those of the fine steps of the accepted size', np.allclose(r['Q'], r['wantQ'], rtol=1e-5, atol=1e-6))


def gen_adaptive(g, s, np, obj, args):
    r = g.r
    return dict(dt=r.choice([1., 4., 10.]), subdivisions=r.choice([1, 2, 2, 3]), retries=r.choice([0, 0, 1, 3]), tol=r.choice([1e-3, .1, 1., 10.]), norm=r.choice([0, 1, 2, 2, -1]))


Contract('adaptive_step', 'C27', 'simulation.Simulation.step', post_adaptive, schema=SIMS, prove=False, gen=gen_adaptive, call=run_adaptive, noraise='bug', weight=2,
         why='retries, error estimates and restored states of whole simulation steps')


# ---------------------------------------------------------------- a whole simulation step, its parts taken by contract
class SIMP:
    SCHEMA = {'model.H_j': ('real', ('J',)), 'model.Q_ik': ('real', ('L',)), 'model.states.H_j': ('real', ('J',)), 'model.states.Q_ik': ('real', ('L',))}
    NESTED = {'model': None}
    SCALARS = {'_iter_count': ('int',), 'dt': ('real',), 'err': ('real',), 'min_dt': ('real',), 'model.t': ('real',), 'model.states.t': ('real',)}
    CONSTS = {}
    INVARIANT = [('fact', lambda q, a: q.And(a['dt'] > 0, a['min_dt'] > 0))]


def same_kwargs(E, same, skip=()):
    """the keyword arguments for the model's step are passed on"""
    want = {k: v for k, v in E.task.args.items() if k in MODEL_KW}
    got = E.bound['kwargs'].items_checked(E.state)
    if set(want) != set(got):
        return False
    rs = [same(want[k], got[k]) for k in sorted(want)]
    return False if any(r is False for r in rs) else b_all(rs)


def b_all(rs):
    from pydv.core import b_and
    return b_and(*rs)


def b_imp(a, b):
    from pydv.core import b_or, b_not
    return b_or(b_not(a), b)


def cond(op, a, b):
    from pydv.core import cmp
    return cmp(op, a, b)


MODEL_KW = ('banded', 'Q_in', 'H_bc', 'num_iter')


def size(E):
    """the size of the step: the one asked for, else the current one"""
    return E.either('dt', 'dt')


def option(E, nm, default):
    return E.task.args.get(nm, default)


def first(E):
    return cond('==', E.count, 0) is True


def given_step(E, same):
    from pydv.core import div
    sub = option(E, 'subdivisions', 1)
    if first(E):
        return same(E.bound['dt'], size(E))
    return cond('==', E.bound['dt'], div(size(E), sub))


def reloaded(E, same):
    """fine steps start from the state before the coarse one, which is loaded once"""
    if first(E):
        return cond('==', E.ghost('load_state'), 0)
    return b_all([cond('==', E.ghost('load_state'), 1), cond('==', E.ghost('at'), 1)])


def stepped(E):
    """after the first step: what the model then holds as the state to go back to, and its heads"""
    if first(E):
        E.ghost('start', E.copy(E.attr('model', 'states')))
        E.ghost('coarse', E.copy(E.attr('model', 'H_j')))


def loaded_state(E, same):
    if E.ghost('start') is None:
        return False
    return same(E.bound['state'], E.ghost('start'))


def loaded(E):
    E.ghost('at', E.ghost('_step'))


def differ(E, same):
    return same(E.bound['err'], E.minus(E.ghost('coarse'), E.attr('model', 'H_j')))


def scaled(E):
    r = E.like(E.bound['err'], 'hv_scaled')
    E.ghost('scaled', r)
    return r


def normed(E):
    r = E.number('free_err')
    E.state.pc.append(cond('>', r, 0))
    E.ghost('err', r)
    return r


def retry_needed(E, same):
    from pydv.core import mul
    if option(E, 'subdivisions', 1) == 1:
        return False
    from fractions import Fraction as F
    return b_all([cond('>', E.ghost('err'), option(E, 'tol', 1)), cond('>', mul(size(E), F(1, 2)), E.old('min_dt')), cond('>=', option(E, 'retries', 0), 1)])


def retry_args(E, same):
    from pydv.core import mul, sub
    from fractions import Fraction as F
    want = {'dt': mul(size(E), F(1, 2)), 'retries': sub(option(E, 'retries', 0), 1)}
    for nm, d in dict(subdivisions=1, tol=1, norm=2, safety_factor=1, coeffs=[F(1, 2), F(1, 2), 0, F(1, 2), 0]).items():
        want[nm] = option(E, nm, d)
    rs = []
    for nm, v in want.items():
        g = E.bound[nm]
        rs.append(same(tuple(g) if isinstance(g, list) else g, tuple(v) if isinstance(v, list) else v))
    return False if any(r is False for r in rs) else b_all(rs)


STEPSTAGES = {
    '_step': dict(args={}, pre={'of the right size': given_step, 'from the initial state': reloaded, 'with the options for the model': same_kwargs}, nested=['model'], effect=stepped),
    'load_state': dict(args={}, pre={'the state before the step': loaded_state}, nested=['model'], effect=loaded),
    '_scaled_error': dict(args={}, pre={'difference of the coarse and the fine heads': differ}, pure=True, result=scaled),
    '_normed_error': dict(args={'scaled_err': lambda E: E.ghost('scaled'), 'norm': lambda E: option(E, 'norm', 2)}, pure=True, result=normed),
    'step': dict(args={}, pre={'only when the error is too large and a smaller step is allowed': retry_needed, 'half the size and one retry less': retry_args,
                               'with the options for the model': same_kwargs,
                               'from the initial state': lambda E, same: cond('==', E.ghost('at'), E.ghost('_step'))},
                 changes=['dt', 'err', 'dts', 'errs', '_iter_count'], nested=['model']),
}


def post_whole(q):
    sub = q.arg('subdivisions') if q.has('subdivisions') else 1
    D = q.arg('dt') if q.has('dt') else q.old['dt']
    g = lambda nm: q.new['ghost:' + nm]
    fine = 'subdivided' in q.scenario
    q.check('one coarse step, and the fine ones', q.same(g('_step'), 1 + sub if fine else 1))
    q.check('error is estimated once', q.And(q.same(g('_scaled_error'), 1 if fine else 0), q.same(g('_normed_error'), 1 if fine else 0)))
    retry = q.And(g('err') > (q.arg('tol') if q.has('tol') else 1), D * q.rat(1, 2) > q.old['min_dt'], q.arg('retries') >= 1) if fine and q.has('retries') else False
    q.check('retried exactly when needed', q.same(g('step'), q.ite(retry, 1, 0) if retry is not False else 0))
    q.check('loaded states', q.same(g('load_state'), (1 if fine else 0) + (q.ite(retry, 1, 0) if retry is not False else 0)))
    if q.scenario == 'subdivided, retries':
        return
    n = q.new
    q.check('size of the step is remembered', q.And(q.same(n['dt'], D), q.same(n['dts'][0], D)))
    if fine:
        q.check('error of the step is remembered', q.And(q.same(n['err'], g('err')), q.same(n['errs'][0], g('err'))))
    else:
        q.check('no error is remembered', n['err'] is None and n['errs'][0] is None)
    q.check('earlier steps move on', q.And(q.same(n['dts'][1], q.old['dts.0']), q.same(n['errs'][1], q.old['errs.0'])))
    q.check('steps are counted', q.same(n['_iter_count'], q.old['_iter_count'] + 1))


HIST = {'dts': ('deque', Real()), 'errs': ('deque', Real())}
MORE = [('fact', lambda q, a: a['arg.subdivisions'] >= 2)]
SOME = [('fact', lambda q, a: a['arg.retries'] >= 1)]
FULL = {'tol': Real(), 'norm': Int(), 'safety_factor': Real(), 'coeffs': T5, 'banded': Bool(), 'num_iter': Int()}
Contract('whole_step', 'C27', 'simulation.Simulation.step', post_whole, schema=SIMP, rac='none', opaque=True,
         stages=dict(stages=STEPSTAGES, protected=['dt', 'err', 'dts', 'errs', 'min_dt', 'model', '_iter_count']), scenarios=[
             scen('plain', attrs=HIST), scen('given size', args={'dt': Real(), **FULL}, attrs=HIST),
             scen('plain, retries', args={'dt': Real(), 'retries': Int(), **FULL}, attrs=HIST, facts=SOME),
             scen('subdivided', args={'subdivisions': Int(), **FULL}, attrs=HIST, facts=MORE),
             scen('subdivided, no retries', args={'dt': Real(), 'subdivisions': Int(), 'retries': 0}, attrs=HIST, facts=MORE),
             scen('subdivided, retries', args={'dt': Real(), 'subdivisions': Int(), 'retries': Int(), **FULL}, attrs=HIST, facts=MORE + SOME)])
