"""C26 forcing data of a simulation: sampling, and what is handed to the model."""
from .base import Contract, scen, Real, Int, Bool


def post_sample(q):
    x, xp, fp, m = q.arg('x'), q.arg('xp'), q.arg('fp'), q.arg('method')
    r, n = q.ret, q.dim('N')
    cols = q.shape(fp, 1)
    q.each('first sample before the data', ['Q'], lambda j: q.eq(r[j], fp[0, j]), when=lambda j: x <= xp[0])
    q.each('last sample after the data', ['Q'], lambda j: q.eq(r[j], fp[n - 1, j]), when=lambda j: x >= xp[n - 1])
    q.check('one value per column', q.same(q.shape(r, 0), cols))
    inside = lambda k, j: q.And(xp[k] <= x, x <= xp[k + 1])
    w = lambda k: xp[k + 1] - xp[k]
    if q.scenario == 'linear':
        q.each('between two samples: straight line', [(0, n - 1), 'Q'], lambda k, j: q.eq(
            r[j] * w(k), fp[k, j] * (xp[k + 1] - x) + fp[k + 1, j] * (x - xp[k])), when=inside)
    else:
        q.each('between two samples: the nearer one, the earlier in the middle', [(0, n - 1), 'Q'], lambda k, j: q.same(
            r[j], q.ite(x - xp[k] <= xp[k + 1] - x, fp[k, j], fp[k + 1, j])), when=inside)
    q.each('data is not modified', ['N', 'Q'], lambda k, j: q.And(q.same(q.new['fp'][k, j], q.old['fp'][k, j]), q.same(q.new['xp'][k], q.old['xp'][k])))


def gen_sample(g, s, np):
    r = g.r
    n, m = r.randint(1, 5), r.randint(0, 3)
    xp = np.cumsum([r.choice([.25, 1., 60., 300., 1e-3]) for _ in range(n)]) + r.choice([0., -5., 1e5])
    u = r.random()
    k = r.randrange(n)
    x = xp[k] if u < .3 else xp[0] - 1. if u < .4 else xp[-1] + 1. if u < .5 else (xp[k] + xp[max(k - 1, 0)]) / 2 if u < .7 else r.uniform(xp[0], xp[-1])
    return {'x': float(x), 'xp': xp, 'fp': np.array([[r.uniform(-2, 2) for _ in range(m)] for _ in range(n)]).reshape(n, m)}


SORTED = [('pair', 'xp', lambda q, a, i, j: q.Imp(i < j, a['xp'][i] < a['xp'][j]))]
Contract('interpolate_sample', 'C26', 'nutils.interpolate_sample', post_sample, params={'x': Real(), 'xp': Real('N'), 'fp': Real('N', 'Q')},
         dims={'N': 'pos'}, facts=SORTED, gen=gen_sample, scenarios=[scen('linear', args={'method': 1}), scen('nearest', args={'method': 0})])
Contract('interpolate_sample_plain', 'C26', 'utils.interpolate_sample', post_sample, params={'x': Real(), 'xp': Real('N'), 'fp': Real('N', 'Q')},
         dims={'N': 'pos'}, facts=SORTED, gen=gen_sample, scenarios=[scen('linear', args={'method': 1}), scen('nearest', args={'method': 0})])


# ---------------------------------------------------------------- what the model is given
class SIM:
    NESTED = {'model': 'nsuperlink.nSuperLink', 'Q_in': None, 'Q_in.index': None, 'H_bc': None, 'H_bc.index': None, 'Q_Ik': None, 'Q_Ik.index': None}
    SCHEMA = {}
    for _f, _d, _n in (('Q_in', 'J', 'T'), ('H_bc', 'J', 'U'), ('Q_Ik', 'N', 'V')):
        SCHEMA[_f + '.values'] = ('real', (_n, _d))
        SCHEMA[_f + '.index.values'] = ('real', (_n,))
    SCALARS = {'interpolation': ('int',), 'model.t': ('real',), 'model.banded': ('bool',), '_iter_count': ('int',), 'dt': ('real',), 'dt_max': ('real',),
               'model._dt': ('real',), 'model.iter_count': ('int',)}
    CONSTS = {}
    INVARIANT = []


INPUTS = {'Q_in': 'Q_in', 'H_bc': 'H_bc', 'Q_Ik': 'Q_0Ik'}     # forcing -> parameter of the model's step


def given(nm, par):
    def pre(E, same):
        v = E.bound.get(par)
        if nm in E.task.args:
            return same(v, E.task.args[nm])
        d = E.task.arrs.get(nm + '.values')
        if d is None:
            return v is None
        from pydv.core import b_and, b_or, b_not, cmp, add, ARRAYS, Unsupported
        from pydv.summaries import sample_of
        if v is None:
            return False
        if not isinstance(v, ARRAYS):
            raise Unsupported('forcing that is no array')
        it, st = E.task.it, E.task.st
        w = sample_of(it.eng, E.task.arrs[nm + '.index.values'][3], d[3], add(E.old('model.t'), E.arg('dt')), E.old('interpolation').v if hasattr(
            E.old('interpolation'), 'v') else E.old('interpolation'))
        i = it.eng.fresh('gi', 'int')
        n = d[1][1]
        return b_and(cmp('==', v.shape[0], n), b_or(cmp('<', i, 0), cmp('>=', i, n), cmp('==', it.reader(E.state, v)((i,)), w((i,)))))
    return pre


def post_forward(q):
    q.check('the model is stepped once', lambda: q.same(q.new['model.ghost:step'], 1))


STEP = {'step': dict(args={'dt': lambda E: E.arg('dt')},
                     pre={('%s: given by the caller, else sampled at the end of the step' % k): given(k, p) for k, p in INPUTS.items()})}
STEP['step']['pre']['banded: given by the caller, else the default of the model'] = lambda E, same: same(
    E.bound.get('banded'), E.arg('banded') if 'banded' in E.task.args else E.old('model.banded'))
STEP['step']['pre']['other options are passed on'] = lambda E, same: others(E, same)


def others(E, same):
    from pydv.core import b_and
    return b_and(*[same(E.bound.get(k), v) for k, v in E.task.args.items() if k not in ('dt', 'banded', 'Q_in', 'H_bc', 'Q_Ik')])


DT = {'dt': Real()}
Contract('simulation_forward', 'C26', 'simulation.Simulation._step', post_forward, schema=SIM, params=DT, rac='none',
         summaries={'nutils.interpolate_sample': 'sample'}, stages=dict(object='model', stages=STEP, protected=[]),
         scenarios=[scen('all data'), scen('no data', without=('Q_in', 'H_bc', 'Q_Ik')), scen('inflows only', without=('H_bc', 'Q_Ik')),
                    scen('boundary stages only', without=('Q_in', 'Q_Ik')), scen('interior inflows only', without=('Q_in', 'H_bc')),
                    scen('inflow given', args={'Q_in': Real('J')}), scen('stage given', args={'H_bc': Real('J')}), scen('interior inflow given', args={'Q_Ik': Real('N')}),
                    scen('all given', args={'Q_in': Real('J'), 'H_bc': Real('J'), 'Q_Ik': Real('N'), 'banded': Bool(), 'u_o': Real('O'), 'u_w': Real('W')}),
                    scen('none given explicitly', args={'Q_in': None, 'H_bc': None, 'Q_Ik': None}),
                    scen('controls', args={'u_o': Real('O'), 'u_w': Real('W'), 'u_p': Real('P'), 'num_iter': Int(), 'first_time': Bool()})])


# ---------------------------------------------------------------- whole simulations (bounded)
class SIMR:
    SCHEMA, SCALARS, CONSTS, INVARIANT = {}, {}, {}, []

    @staticmethod
    def make(g, cls, s, over, c):
        import numpy as np
        import pandas as pd
        r = g.r
        m = g.model(auto_permute=r.random() < .4, dt=r.choice([1., 5.]), **s.get('model', {}))
        t0 = r.choice([0., 100., -30.])

        def frame(cols, lo, hi, int_index=False):
            n = r.randint(1, 5)
            t = t0 + np.cumsum([r.choice([2., 7., 60.]) for _ in range(n)]) - 2.
            if int_index:
                t = t.astype(int)
            return pd.DataFrame(np.array([[r.uniform(lo, hi) for _ in range(cols)] for _ in range(n)]), index=t)
        z = m.superjunctions['z_inv'].values.max()
        data = dict(Q_in=frame(m.M, 0, .3, r.random() < .4) if r.random() < .8 else None,
                    H_bc=frame(m.M, z, z + 2) if r.random() < .7 else None,
                    Q_Ik=frame(m.NIk if hasattr(m, 'NIk') else m._h_Ik.size, 0, .05) if r.random() < .5 else None)
        keep = {k: None if v is None else v.copy(deep=True) for k, v in data.items()}
        opts = dict(interpolation_method=r.choice(['linear', 'nearest', 'Linear']))
        if r.random() < .5:
            opts['dt'] = r.choice([1., 4.])
        o = cls(m, **data, **opts)
        o._vp = (data, keep, opts)
        return o


def sampled(np, df, t, method, m, permuted):
    """independent sampling of a table: by column, clamped at the ends"""
    x, out = df.index.values.astype(float), []
    for j in range(df.shape[1]):
        y = df.iloc[:, j].values
        if t <= x[0] or len(x) == 1:
            v = y[0]
        elif t >= x[-1]:
            v = y[-1]
        else:
            k = max(i for i in range(len(x)) if x[i] <= t)
            w = (t - x[k]) / (x[k + 1] - x[k])
            v = (1 - w) * y[k] + w * y[k + 1] if method == 'linear' else y[k] if t - x[k] <= x[k + 1] - t else y[k + 1]
        out.append(v)
    out = np.array(out)
    if permuted:
        names = ['j%d' % j for j in range(m.M)]          # of the table, in the order of the columns of the data
        return np.array([out[names.index(n)] for n in m.superjunction_names])
    return out


def run_forward(obj, args):
    import inspect
    import numpy as np
    m, (data, keep, opts) = obj.model, obj._vp
    method = opts['interpolation_method'].lower()
    bad, calls = [], []
    real = m.step
    sig = inspect.signature(real)
    par = {'Q_in': 'Q_in', 'H_bc': 'H_bc', 'Q_Ik': 'Q_0Ik'}

    def spy(*p, **kw):
        b = sig.bind(*p, **kw).arguments
        calls.append(b.get('dt'))
        t = m.t + b['dt']
        for nm, pr in par.items():
            v = b.get(pr)
            if nm in given:
                w = given[nm]
            elif data[nm] is None:
                w = None
            else:
                w = sampled(np, keep[nm], t, method, m, nm != 'Q_Ik')
            if (v is None) != (w is None) or (w is not None and not np.allclose(v, w, rtol=1e-9, atol=1e-12)):
                bad.append('%s at the end of the step' % nm)
        if bool(b.get('banded', m.banded)) != bool(given.get('banded', m.banded)):
            bad.append('banded')
        return real(*p, **kw)
    m.step = spy
    want_t, n = m.t, 0
    try:
        for dt, sub, given in args['plan']:
            kw = dict(given)
            if sub > 1:
                kw['subdivisions'] = sub
            if dt is not None:
                kw['dt'] = dt
            obj.step(**kw)
            n += kw.get('subdivisions', 1) + (kw.get('subdivisions', 1) > 1)
            obj.record_state()
            want_t += obj.dt if dt is None else dt
            if dt is None and abs(obj.dt - (args['prev'] if args['prev'] is not None else opts.get('dt', m._dt))) > 1e-12:
                bad.append('default step')
            args['prev'] = obj.dt
            if abs(m.t - want_t) > 1e-9 * (1 + abs(want_t)):
                bad.append('time')
            for nm in ('H_j', 'Q_ik', 'Q_uk'):
                if not np.array_equal(getattr(obj.states, nm)[float(m.t)], getattr(m, nm)):
                    bad.append('recorded ' + nm)
    finally:
        del m.step
    for nm in data:
        if data[nm] is not None and not data[nm].equals(keep[nm]):
            bad.append('data %s was modified' % nm)
    return dict(bad=bad, calls=calls, n=n)


def post_run(q):
    r = q.ret
    q.check('the model is stepped once per step', len(r['calls']) == r['n'])
    q.check('forcing, time and recorded states' + ''.join(' / ' + x for x in sorted(set(r['bad']))[:3]), not r['bad'])


def gen_run(g, s, np, obj, args):
    r, m = g.r, obj.model
    plan = []
    for _ in range(r.randint(1, 4)):
        given = {}
        if r.random() < .25:
            given['Q_in'] = r.choice([None, np.array([r.uniform(0, .2) for _ in range(m.M)])])
        if r.random() < .15:
            given['Q_Ik'] = None
        if r.random() < .2:
            given['banded'] = bool(m.banded and r.random() < .5)
        plan.append((r.choice([None, 1., 2., 7.5]), r.choice([1, 1, 2, 3]), given))
    return dict(plan=plan, prev=None)


Contract('simulation_run', 'C26', 'simulation.Simulation.step', post_run, schema=SIMR, prove=False, gen=gen_run, call=run_forward, noraise='bug',
         why='bounded counterpart on whole simulations: construction from tables, column order, recorded states')
