"""C24 limits and bookkeeping of infiltration; C25 Green-Ampt equations per regime."""
from .base import Contract, scen, Fn, Real, Int, Bool
from . import soil_model as SOIL

TARGET = 'ninfiltration.nGreenAmpt.'
NEWTON = {'ninfiltration.run_green_ampt_newton': 'ga_newton'}
POS = [('fact', lambda q, a: a['arg.dt'] > 0)]
RAIN = ('elem', 'arg_ia', lambda q, a, i: a['arg.ia'][i] >= 0)


def capacity(q, c, x, F1, dt):
    """left minus right side of the integrated Green-Ampt equation for a cumulative infiltration x after dt"""
    pt = c['psi_f'] * c['theta_d']
    aux = q.abs(c['psi_f']) * c['theta_d']
    return c['Ks'] * dt + F1 - pt * q.fn('LOG', F1 + aux) + pt * q.fn('LOG', x + aux) - x


def clip(q, x, lo, hi):
    return q.min(q.max(x, lo), hi)


def depleted(q, i, dF):
    o = q.old
    return clip(q, o['theta_du'][i] - q.div(dF, o['Lu'][i]), 0.0, o['theta_dmax'][i])


def unchanged(q, name, rng, when, but=()):
    for nm in ('F', 'f', 'theta_du', 'theta_d', 'T', 'is_saturated', 'd', 'theta_dmax', 'Ks', 'psi_f', 'Lu', 'kr', 'Tr', 'A_s'):
        if nm not in but:
            q.each('%s: %s is kept' % (name, nm), ['N'], lambda i, nm=nm: q.same(q.new[nm][i], q.old[nm][i]), when=when)


def wet(q, lab, when, dt, ia, rate=None):
    """bookkeeping of elements that take water"""
    o, n = q.old, q.new
    q.each(lab + ': cumulative infiltration grows by rate times step', ['N'], lambda i: q.eq(n['F'][i], o['F'][i] + n['f'][i] * dt), when=when)
    q.each(lab + ': rate is not negative', ['N'], lambda i: q.ge(n['f'][i], 0.0, scale=1e-3), when=when)
    q.each(lab + ': rate does not exceed the available rainfall', ['N'], lambda i: q.le(n['f'][i], ia(i)), when=when)
    q.each(lab + ': deficit of the upper layer falls by the water taken', ['N'], lambda i: q.eq(
        n['theta_du'][i], depleted(q, i, n['F'][i] - o['F'][i])), when=when)


CELL = ('F', 'theta_d', 'psi_f', 'Ks', 'Tr')
NEWC = ('F', 'f', 'is_saturated', 'T')


def cell(q, i, ia, dt):
    """what the equations of one element are about: its state before (plain names) and after (primed)"""
    c = {k: q.old[k][i] for k in CELL}
    c.update({k + "'": q.new[k][i] for k in NEWC})
    c.update(ia=ia(i), dt=dt)
    return c


def ponding_law(q, c):
    cap = capacity(q, c, c['F'] + c['ia'] * c['dt'], c['F'], c['dt'])
    imp = lambda a, b: q.Or(q.Not(a), b)
    return {'all water is taken if the capacity exceeds it': imp(cap > 0, q.eq(c["f'"], c['ia'])),
            'integrated Green-Ampt equation': imp(cap <= 0, q.eq(capacity(q, c, c["F'"], c['F'], c['dt']), 0.0)),
            'saturated while the capacity does not exceed the available rainfall': q.Iff(c["is_saturated'"], cap <= 0),
            'recovery time starts': q.eq(c["T'"], c['Tr'])}


def heavy_law(q, c):
    F, ia, dt = c['F'], c['ia'], c['dt']
    Fs = q.div(c['Ks'] * c['psi_f'] * c['theta_d'], ia - c['Ks'])
    imp = lambda *xs: q.Or(*[q.Not(x) for x in xs[:-1]], xs[-1])
    top = F + ia * dt
    R = {'ponding surface: ' + k: imp(F >= Fs, x) for k, x in ponding_law(q, c).items()}
    R['before ponding: all of it infiltrates'] = imp(F < Fs, top < Fs, q.eq(c["f'"], ia))
    # ponding begins within the step: all water until then, the Green-Ampt equation for the rest of the step
    sub = dt - q.div(Fs - F, ia)
    cap = lambda x: capacity(q, c, x, Fs, sub)
    R['ponding within the step: Green-Ampt equation from the time of ponding'] = imp(F < Fs, top >= Fs, cap(top) <= 0, q.eq(cap(c["F'"]), 0.0))
    R['ponding within the step: all water is taken if the capacity exceeds it'] = imp(F < Fs, top >= Fs, cap(top) > 0, q.eq(c["f'"], ia))
    R['ponding within the step: at least the water needed for ponding'] = imp(F < Fs, top >= Fs, q.ge(c["F'"], Fs))
    R['not ponding at the start: not yet marked saturated'] = imp(F < Fs, q.Not(c["is_saturated'"]))
    R['recovery time starts'] = q.eq(c["T'"], c['Tr'])
    return R


LABELS = {}


def law(q, name, fn, when, dt, ia):
    """one obligation per part of the law"""
    if name not in LABELS:
        LABELS[name] = list(fn(Names(), NAMES))
    for k in LABELS[name]:
        q.each('%s: %s' % (name, k), ['N'], lambda i, k=k: fn(q, cell(q, i, ia, dt))[k], when=when)


class Names:
    """evaluates a law for the names of its parts only"""
    def __getattr__(self, k):
        return lambda *a: self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = lambda self, *a: self


NAMES = {k: Names() for k in CELL + tuple(x + "'" for x in NEWC) + ('ia', 'dt')}


def whole(q, name, fn, when, dt, ia):
    """the law as one statement, which a caller relies on without looking inside"""
    q.each(name + ' law', ['N'], lambda i: q.law(name, fn, cell(q, i, ia, dt)), when=when)


def gen_case(param, pick):
    def gen(g, s, np, obj, args):
        r = g.r
        dt = r.choice([1., 30., 60., 300., 3600.])
        i = SOIL.storm(g, obj, np)
        a = {'dt': dt, param: pick(g, obj, np, i)}
        if 'ia' in args:
            a['ia'] = i + (obj.d / dt if r.random() < .3 else 0.)
        if param == 'case_3':
            a['ia'] = np.maximum(a['ia'], 0)
            a[param] = a[param] & (a['ia'] > obj.Ks)
        return {k: a[k] for k in args}
    return gen


def rnd(g, obj, np, i):
    return np.array([g.r.random() < .7 for _ in range(obj.N)])


def soak(g, obj, np):
    obj.is_saturated |= rnd(g, obj, np, None) & (obj.F > 0)
    if g.r.random() < .5:
        obj.d[:] = 0.


def pick_sat(g, obj, np, i):
    return obj.is_saturated & rnd(g, obj, np, i)


def pick_unsat(g, obj, np, i):
    return ~obj.is_saturated & rnd(g, obj, np, i)


CASE = {'dt': Real(), 'ia': Real('N')}
SATSEL = ('elem', 'arg_sat_case', lambda q, a, i: q.Or(q.Not(a['arg.sat_case'][i]), a['is_saturated'][i]))
TOL = dict(rtol=1e-6, atol=1e-7)


def post_sat24(q):
    sel = lambda i: q.old['arg.sat_case'][i]
    ranges(q)
    wet(q, 'saturated', sel, q.arg('dt'), lambda i: q.arg('ia')[i])
    unchanged(q, 'saturated', ['N'], None, but=('F', 'f', 'theta_du', 'T', 'is_saturated'))
    rest(q, sel)


def rest(q, sel):
    q.each('other elements are not touched', ['N'], lambda i: q.And(*[q.same(q.new[x][i], q.old[x][i]) for x in (
        'F', 'f', 'theta_du', 'theta_d', 'T', 'is_saturated')]), when=lambda i: q.Not(sel(i)))


def post_sat25(q, f=law):
    f(q, 'saturated', ponding_law, lambda i: q.old['arg.sat_case'][i], q.arg('dt'), lambda i: q.arg('ia')[i])


def both(name, meth, post24, post25, param, pick, params, facts, **kw):
    for p, post in (('C24', post24), ('C25', post25)):
        if post is not None:
            Contract('soil_%s_%s' % (name, 'limits' if p == 'C24' else 'law'), p, TARGET + meth, post, schema=SOIL,
                     params={**params, param: Bool('N')}, facts=POS + facts, summaries=NEWTON, gen=gen_case(param, pick),
                     group='natural', scenarios=[scen('all', prepare=soak)], **TOL, **kw)


both('saturated', 'saturated_case', post_sat24, post_sat25, 'sat_case', pick_sat, CASE, [RAIN, SATSEL])


# ---------------------------------------------------------------- dry
def dry(q, sel, dt, T):
    o, n = q.old, q.new
    gain = lambda i: o['kr'][i] * o['theta_dmax'][i] * dt
    over = lambda i: T(i) <= 0
    AND = lambda f: (lambda i: q.And(sel(i), f(i)))
    q.each('dry: nothing infiltrates', ['N'], lambda i: q.eq(n['f'][i], 0.0), when=sel)
    q.each('dry: the deficit of the upper layer recovers', ['N'], lambda i: q.eq(
        n['theta_du'][i], q.min(o['theta_du'][i] + gain(i), o['theta_dmax'][i])), when=sel)
    q.each('dry: cumulative infiltration drains', ['N'], lambda i: q.eq(
        n['F'][i], q.max(o['F'][i] - gain(i) * o['Lu'][i], 0.0)), when=AND(lambda i: q.Not(over(i))))
    q.each('dry: a new event starts from zero after the recovery time', ['N'], lambda i: q.And(
        q.eq(n['F'][i], 0.0), q.eq(n['theta_d'][i], n['theta_du'][i])), when=AND(over))
    q.each('dry: the deficit of an event is kept until then', ['N'], lambda i: q.same(n['theta_d'][i], o['theta_d'][i]),
           when=AND(lambda i: q.Not(over(i))))


def ranges(q):
    n = q.new
    q.each('cumulative infiltration is not negative', ['N'], lambda i: q.ge(n['F'][i], 0.0, scale=1e-3))
    q.each('deficit of the upper layer stays between zero and its maximum', ['N'], lambda i: q.And(
        n['theta_du'][i] >= 0, n['theta_du'][i] <= n['theta_dmax'][i]))
    q.each('deficit of an event stays positive and at most its maximum', ['N'], lambda i: q.And(
        n['theta_d'][i] > 0, n['theta_d'][i] <= n['theta_dmax'][i]))


def post_dry24(q):
    ranges(q)
    rest(q, lambda i: q.old['arg.case_1'][i])
    unchanged(q, 'dry', ['N'], None, but=('F', 'f', 'theta_du', 'theta_d'))


both('dry', 'unsaturated_case_1', post_dry24, lambda q: dry(q, lambda i: q.old['arg.case_1'][i], q.arg('dt'), lambda i: q.old['T'][i]),
     'case_1', rnd, {'dt': Real()}, [])


# ---------------------------------------------------------------- light rain
def light(q, sel, dt, ia):
    q.each('light rain: all of it infiltrates', ['N'], lambda i: q.eq(q.new['f'][i], ia(i)), when=sel)


def post_light24(q):
    sel = lambda i: q.old['arg.case_2'][i]
    ranges(q)
    wet(q, 'light rain', sel, q.arg('dt'), lambda i: q.arg('ia')[i])
    rest(q, sel)
    unchanged(q, 'light rain', ['N'], None, but=('F', 'f', 'theta_du'))


both('light', 'unsaturated_case_2', post_light24, lambda q: light(q, lambda i: q.old['arg.case_2'][i], q.arg('dt'), lambda i: q.arg('ia')[i]),
     'case_2', rnd, CASE, [RAIN])


# ---------------------------------------------------------------- heavy rain
HEAVYSEL = ('elem', 'arg_case_3', lambda q, a, i: q.Or(q.Not(a['arg.case_3'][i]), q.And(q.Not(a['is_saturated'][i]), a['arg.ia'][i] > a['Ks'][i])))


def post_heavy24(q):
    sel = lambda i: q.old['arg.case_3'][i]
    ranges(q)
    wet(q, 'heavy rain', sel, q.arg('dt'), lambda i: q.arg('ia')[i])
    rest(q, sel)
    unchanged(q, 'heavy rain', ['N'], None, but=('F', 'f', 'theta_du', 'T', 'is_saturated'))


def post_heavy25(q, f=law):
    f(q, 'heavy rain', heavy_law, lambda i: q.old['arg.case_3'][i], q.arg('dt'), lambda i: q.arg('ia')[i])


both('heavy', 'unsaturated_case_3', post_heavy24, post_heavy25,
     'case_3', pick_unsat, CASE, [RAIN, HEAVYSEL])


# ---------------------------------------------------------------- whole step
def post_step24(q):
    o, n = q.old, q.new
    dt, rain = q.arg('dt'), q.arg('i')
    ia = lambda i: rain[i] + q.div(o['d'][i], dt)
    ranges(q)
    q.each('rate is between zero and the available rainfall', ['N'], lambda i: q.And(
        q.ge(n['f'][i], 0.0, scale=1e-3), q.le(n['f'][i], ia(i))))
    wetted = lambda i: q.Or(o['is_saturated'][i], ia(i) > 0)
    q.each('cumulative infiltration grows by rate times step while it rains', ['N'], lambda i: q.eq(
        n['F'][i], o['F'][i] + n['f'][i] * dt), when=wetted)
    q.each('deficit of the upper layer falls by the water taken while it rains', ['N'], lambda i: q.eq(
        n['theta_du'][i], depleted(q, i, n['F'][i] - o['F'][i])), when=wetted)
    q.each('runoff is the rain that does not infiltrate', ['N'], lambda i: q.eq(
        n['Q'][i], q.max(rain[i] - n['f'][i], 0.0) * o['A_s'][i]))
    q.each('ponding depth is not negative', ['N'], lambda i: q.ge(n['d'][i], 0.0))
    q.each('ponding depth grows only where more rain falls than infiltrates', ['N'], lambda i: q.le(n['d'][i], o['d'][i]), when=lambda i: n['f'][i] >= rain[i])
    q.each('ponding depth does not fall where more rain falls than infiltrates', ['N'], lambda i: q.ge(n['d'][i], o['d'][i]), when=lambda i: n['f'][i] <= rain[i])
    q.check('time advances by the step', q.eq(n['t'], o['t'] + dt))
    q.check('steps are counted', q.eq(n['iter_count'], o['iter_count'] + 1))
    for nm in ('psi_f', 'Ks', 'theta_dmax', 'Lu', 'kr', 'Tr', 'A_s'):
        q.each('soil parameter %s is kept' % nm, ['N'], lambda i, nm=nm: q.same(n[nm][i], o[nm][i]))


def post_step25(q):
    o, n = q.old, q.new
    dt, rain = q.arg('dt'), q.arg('i')
    ia = lambda i: rain[i] + q.div(o['d'][i], dt)
    S = lambda i: o['is_saturated'][i]
    sel = lambda f: (lambda i: q.And(q.Not(S(i)), f(i)))
    whole(q, 'saturated', ponding_law, S, dt, ia)
    dry(q, sel(lambda i: q.same(ia(i), 0.0)), dt, lambda i: o['T'][i] - dt)
    light(q, sel(lambda i: q.And(ia(i) > 0, ia(i) <= o['Ks'][i])), dt, ia)
    whole(q, 'heavy rain', heavy_law, sel(lambda i: ia(i) > o['Ks'][i]), dt, ia)
    q.each('recovery time runs down in dry weather and light rain', ['N'], lambda i: q.eq(n['T'][i], o['T'][i] - dt),
           when=sel(lambda i: ia(i) <= o['Ks'][i]))


def callee(mask, writes, posts, pre):
    """the step relies on the contracts of the saturated and the heavy-rain case, not on their bodies"""
    inv = [(x[1], lambda q, a, i, f=x[2]: f(q, a, i)) for x in SOIL.INVARIANT if x[0] == 'elem']
    P = inv + [('rainfall', lambda q, a, i: a['arg.ia'][i] >= 0), ('step', lambda q, a, i: a['arg.dt'] > 0)] + pre
    return ('contract', mask, writes.split(), posts, P)


def modular(k):
    sat = callee('sat_case', 'F f theta_du T is_saturated', [post_sat24] if k == 24 else [ranges, lambda q: post_sat25(q, whole)], [('selection', SATSEL[2])])
    hv = callee('case_3', 'F f theta_du T is_saturated', [post_heavy24 if k == 24 else lambda q: post_heavy25(q, whole)], [('selection', HEAVYSEL[2])])
    return {TARGET + 'saturated_case': sat, TARGET + 'unsaturated_case_3': hv}


def gen_step(g, s, np, obj, args):
    return {'dt': g.r.choice([1., 30., 60., 300., 3600.]), 'i': SOIL.storm(g, obj, np)}


RAINI = ('elem', 'arg_i', lambda q, a, i: a['arg.i'][i] >= 0)
Contract('soil_step_limits', 'C24', TARGET + 'step', post_step24, schema=SOIL, params={'dt': Real(), 'i': Real('N')}, facts=POS + [RAINI],
         summaries=modular(24), gen=gen_step, group='natural', scenarios=[scen('all', prepare=soak)], weight=3, **TOL)
Contract('soil_step_law', 'C25', TARGET + 'step', post_step25, schema=SOIL, params={'dt': Real(), 'i': Real('N')}, facts=POS + [RAINI],
         summaries=modular(25), opaque=True, gen=gen_step, group='natural', scenarios=[scen('all', prepare=soak)], weight=3, **TOL)


# ---------------------------------------------------------------- solution of the integrated equation
def post_newton(q):
    F1, dt, Ks, th, ps, ia = (q.arg(x) for x in ('F_1', 'dt', 'Ks', 'theta_d', 'psi_f', 'ia'))
    r = q.ret
    g = lambda i, x: Ks[i] * dt[i] + F1[i] - ps[i] * th[i] * q.fn('LOG', F1[i] + q.abs(ps[i]) * th[i]) + ps[i] * th[i] * q.fn(
        'LOG', x + q.abs(ps[i]) * th[i]) - x
    ub = lambda i: F1[i] + ia[i] * dt[i]
    q.each('no less than before', ['N'], lambda i: q.ge(r[i], F1[i]))
    q.each('no more than the water available', ['N'], lambda i: q.le(r[i], ub(i)))
    q.each('the water available if the capacity exceeds it', ['N'], lambda i: q.eq(r[i], ub(i)), when=lambda i: g(i, ub(i)) > 0)
    q.each('the zero of the integrated equation otherwise', ['N'], lambda i: q.eq(g(i, r[i]), 0.0), when=lambda i: g(i, ub(i)) <= 0)


def gen_newton(g, s, np):
    n = g.r.randint(1, 4)
    L = lambda a, b: np.array([10 ** g.r.uniform(a, b) for _ in range(n)])
    F1 = np.array([g.r.choice([0., 10 ** g.r.uniform(-4, -.5)]) for _ in range(n)])
    Ks = L(-7, -4)
    return {'F_2': np.zeros(n), 'x0': F1.copy() if g.r.random() < .6 else F1 * g.r.uniform(0, 1), 'F_1': F1, 'dt': np.full(n, g.r.choice([1., 60., 300., 3600.])),
            'Ks': Ks, 'theta_d': L(-2, -.3), 'psi_f': L(-1.5, -.3), 'ia': Ks * np.array([g.r.choice([0., .5, 1., 2., 30.]) for _ in range(n)])}


NP = {k: Real('N') for k in ('F_2', 'x0', 'F_1', 'dt', 'Ks', 'theta_d', 'psi_f', 'ia')}
NF = [('elem', 'F_1', lambda q, a, i: a['F_1'][i] >= 0), ('elem', 'dt', lambda q, a, i: a['dt'][i] >= 0), ('elem', 'Ks', lambda q, a, i: a['Ks'][i] > 0),
      ('elem', 'theta_d', lambda q, a, i: a['theta_d'][i] > 0), ('elem', 'psi_f', lambda q, a, i: a['psi_f'][i] > 0), ('elem', 'ia', lambda q, a, i: a['ia'][i] >= 0)]
Contract('soil_newton', 'C25', 'ninfiltration.run_green_ampt_newton', post_newton, params=NP, facts=NF,
         summaries={'nutils.bounded_newton_raphson': 'bounded_root'}, gen=gen_newton, **TOL)


# ---------------------------------------------------------------- bounded root (convergence: checked on real calls only)
def run_root(obj, args):
    import importlib
    N = importlib.import_module('pipedream_solver.ninfiltration')
    U = importlib.import_module('pipedream_solver.nutils')
    f = getattr(N.numba_integrated_green_ampt, 'py_func', N.numba_integrated_green_ampt)
    df = getattr(N.numba_derivative_green_ampt, 'py_func', N.numba_derivative_green_ampt)
    a = args['args']
    r = U.bounded_newton_raphson(f, df, args['x0'], args['x_lb'], args['x_ub'], a)
    return dict(r=float(r), gr=float(f(r, a)), gl=float(f(args['x_lb'], a)), gu=float(f(args['x_ub'], a)))


def post_root(q):
    r, lo, hi = q.ret, float(q.args['x_lb']), float(q.args['x_ub'])
    tol = 2e-8 + 1e-9 * abs(hi)
    q.check('result between the bounds', lo <= r['r'] <= hi)
    if r['gl'] >= 0 and r['gu'] <= 0:
        q.check('zero of the function', abs(r['gr']) <= tol)
    elif r['gl'] > 0 and r['gu'] > 0 and r['gu'] < r['gl']:
        q.check('bound of the smaller value if there is no zero', abs(r['r'] - hi) <= tol)


def gen_root(g, s, np):
    a = gen_newton(g, s, np)
    F1, dt, ia = (float(a[k][0]) for k in ('F_1', 'dt', 'ia'))
    return dict(x0=float(a['x0'][0]), x_lb=0., x_ub=F1 + ia * dt, args=np.array([F1, dt, a['Ks'][0], a['theta_d'][0], a['psi_f'][0]]))


Contract('soil_root', 'C25', 'nutils.bounded_newton_raphson', post_root, params={'x0': Real(), 'x_lb': Real(), 'x_ub': Real()}, prove=False, gen=gen_root,
         call=run_root, why='convergence of the iteration to the zero within its iteration limit')



# ---------------------------------------------------------------- bounded root: every iteration keeps the bracket
def root_keep(q, e):
    f, df = (lambda x: q.app('f', x)), (lambda x: q.app('df', x))
    x, a, b, lo, hi = e['x'], e['x_lb'], e['x_ub'], q.arg('x_lb'), q.arg('x_ub')
    inside = lambda v: q.And(q.min(lo, hi) <= v, v <= q.max(lo, hi))
    return [('the bracket stays within the bounds', q.And(inside(a), inside(b))), ('the estimate stays within the bounds', inside(x)),
            ('value at the estimate', q.same(e['fx'], f(x))), ('derivative at the estimate', q.same(e['dfx'], df(x))),
            ('ends of the bracket: negative below, or a bound', q.Or(f(a) < 0, q.same(a, q.ite(f(lo) > f(hi), hi, lo)))),
            ('ends of the bracket: not negative above, or a bound', q.Or(f(b) >= 0, q.same(b, q.ite(f(lo) > f(hi), lo, hi)))),
            ('a change of sign between the bounds stays in the bracket', q.Imp(q.And(q.min(f(lo), f(hi)) <= 0, q.max(f(lo), f(hi)) >= 0), q.And(f(a) <= 0, f(b) >= 0)))]


def root_exit(q, e):
    x, dx, p = e['x'], e['dx'], e['x'] + e['dx']
    return [('the last change was below the tolerance', q.abs(dx) < q.arg('atol')),
            ('a step of halving or of Newton', q.Or(q.eq(2 * x, e['x_lb'] + e['x_ub']), q.And(q.Not(q.same(q.app('df', p), 0)), q.eq(q.app('f', p), dx * q.app('df', p)))))]


def post_bracket(q):
    lo, hi = q.arg('x_lb'), q.arg('x_ub')
    q.check('the result is within the bounds', q.And(q.min(lo, hi) <= q.ret, q.ret <= q.max(lo, hi)))


Contract('root_iteration', 'C25', 'nutils.bounded_newton_raphson', post_bracket, rac='none', timeout=20000,
         params={'f': Fn('f'), 'df': Fn('df'), 'x0': Real(), 'x_lb': Real(), 'x_ub': Real(), 'args': None, 'max_iter': Int(), 'atol': Real()},
         facts=[('fact', lambda q, a: q.And(a['max_iter'] >= 0, a['atol'] > 0))],
         invariants={'nutils.bounded_newton_raphson': {'keep': root_keep, 'exit': root_exit}})
