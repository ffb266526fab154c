"""C16 time-step bookkeeping; C17 saving and loading of states (see c17_states)."""
import copy
import types
from .base import Contract, scen, Real, Int, Bool
from . import model as HM

PROTECTED = '''t iter_count iter_elapsed _dt banded _method inertial_damping _exit_hydraulics orifices weirs pumps n_o n_w n_p
 mobile_elements states M NK'''.split()
HIDDEN = ['_Q_in', '_Q_0Ik']       # references to the caller's arrays, which no stage looks at
STATE = dict(H_j='J', _h_Ik='N', _Q_ik='L', _Q_uk='K', _Q_dk='K', _x_Ik='N', _theta_uk='K', _theta_dk='K', _A_ik='L', _A_uk='K', _A_dk='K',
             _A_sj='J', _V_sj='J', _Qo='O', _Qw='W', _Qp='P', _dx_ik='L', _z_inv_Ik='N')
# recorded name -> attribute
RECORD = {'H_j': 'H_j', 'h_Ik': '_h_Ik', 'Q_ik': '_Q_ik', 'Q_uk': '_Q_uk', 'Q_dk': '_Q_dk', 'x_Ik': '_x_Ik', '_theta_uk': '_theta_uk',
          '_theta_dk': '_theta_dk', 'A_ik': '_A_ik', 'A_uk': '_A_uk', 'A_dk': '_A_dk', 'A_sj': '_A_sj', 'V_j': '_V_sj'}
RECORD_O, RECORD_W, RECORD_P = {'Q_o': '_Qo'}, {'Q_w': '_Qw'}, {'Q_p': '_Qp'}
RECORD_M = {'_dx_ik': '_dx_ik', '_z_inv_Ik': '_z_inv_Ik', '_elem_pos': '_elem_pos', '_fixed': '_fixed'}


def schema(states=True):
    S = types.SimpleNamespace()
    S.SCHEMA = {nm: ('real', (d,)) for nm, d in STATE.items()}
    S.SCHEMA.update({'_elem_pos': ('int', ('K',)), '_fixed': ('bool', ('K', 'Q')), 'b': ('real', ('J',)), '_g_scratch': ('real', ('J',))})
    if states:
        for r, a in {**RECORD, **RECORD_O, **RECORD_W, **RECORD_P, **RECORD_M}.items():
            S.SCHEMA['states.' + r] = S.SCHEMA[a]
    S.SCALARS = {'M': ('dim', 'J'), 'NK': ('dim', 'K'), 't': ('real',), '_dt': ('real',), 'iter_count': ('int',), 'iter_elapsed': ('int',)}
    if states:
        S.SCALARS['states.t'] = ('real',)
    S.CONSTS = {}
    S.INVARIANT = [('fact', lambda q, a: a['_dt'] > 0)]
    return S


def dt_(E):
    return E.either('dt', '_dt')


def arg(nm):
    return lambda E: E.arg(nm)


GEOM = ['link_hydraulic_geometry', 'upstream_hydraulic_geometry', 'downstream_hydraulic_geometry']


def stages(orifices, weirs, pumps, banded, damping, exits, method, first_iter=True):
    S = {}

    def add(nm, after=(), **args):
        S[nm] = dict(after=list(after), args=args)
    for g in GEOM:
        add(g)
    add('compute_storage_areas')
    add('compute_storage_volumes')
    add('node_velocities', GEOM)
    if orifices:
        add('orifice_hydraulic_geometry', u=arg('u_o'))
    pre = ['node_velocities'] + GEOM
    if damping:
        add('compute_flow_regime', GEOM)
        pre = pre + ['compute_flow_regime']
    fi = lambda E: E.first(first_iter, False)
    add('link_coeffs', pre, _dt=dt_, first_iter=fi)
    add('node_coeffs', pre[:4], _dt=dt_, first_iter=fi, _Q_0Ik=arg('Q_0Ik'))
    for r in ('forward_recurrence', 'backward_recurrence'):
        add(r, ['link_coeffs', 'node_coeffs'])
    for r in ('upstream', 'downstream'):
        add('superlink_%s_head_coefficients' % r, GEOM, _dt=dt_)
    add('superlink_flow_coefficients', ['superlink_upstream_head_coefficients', 'superlink_downstream_head_coefficients',
                                        'forward_recurrence', 'backward_recurrence'])
    need = ['superlink_flow_coefficients', 'compute_storage_areas']
    after = []
    if orifices:
        add('orifice_flow_coefficients', ['orifice_hydraulic_geometry'], u=arg('u_o'))
        need.append('orifice_flow_coefficients')
        after.append('solve_orifice_flows')
    if weirs:
        add('weir_flow_coefficients', u=arg('u_w'))
        need.append('weir_flow_coefficients')
        after.append('solve_weir_flows')
    if pumps:
        add('pump_flow_coefficients', u=arg('u_p'))
        need.append('pump_flow_coefficients')
        after.append('solve_pump_flows')
    add('sparse_matrix_equations', need, H_bc=arg('H_bc'), _Q_0j=arg('Q_in'), first_time=arg('first_time'), _dt=dt_)
    solve = 'solve_banded_matrix' if banded else 'solve_sparse_matrix'
    add(solve, ['sparse_matrix_equations'])
    add('solve_superlink_flows', [solve])
    for f in after:
        kw = dict(u=arg('u_' + f[6]))
        if f == 'solve_orifice_flows':
            kw['dt'] = dt_
        add(f, [solve], **kw)
    add('solve_superlink_depths', ['solve_superlink_flows'])
    last = ['solve_superlink_flows', 'solve_superlink_depths']
    if exits:
        add('exit_conditions', last)
        add('solve_critical_depth', ['exit_conditions'])
        add('solve_exit_hydraulics', ['exit_conditions', 'solve_critical_depth'])
        last = last + ['solve_exit_hydraulics']
    internals = {'b': 'solve_internals_backwards', 'f': 'solve_internals_forwards', 'nnls': 'solve_internals_nnls', 'lsq': 'solve_internals_lsq'}
    add(internals[method], last)
    once = list(S)
    for nm in internals.values():
        if nm not in S:
            S[nm] = dict(never=True)
    S['solve_sparse_matrix' if banded else 'solve_banded_matrix'] = dict(never=True)
    return dict(stages=S, protected=PROTECTED, hidden=HIDDEN, once=once)


def post_step(spec, first_iter, mobile, o_, w_, p_):
    def post(q):
        o, n = q.old, q.new
        dt = q.arg('dt') if q.has('dt') else o['_dt']
        q.check('time advances by the step', q.eq(n['t'], o['t'] + dt))
        q.check('the step counter advances by one', q.same(n['iter_count'], o['iter_count'] + 1))
        if q.has('num_iter'):
            q.check('at least one iteration', n['iter_elapsed'] >= 1)
            q.check('at most the requested iterations', n['iter_elapsed'] <= q.max(q.arg('num_iter'), 1))
        else:
            q.check('one iteration', q.same(n['iter_elapsed'], 1))
        for nm in spec['stages']:
            want = n['iter_elapsed'] if nm in spec['once'] else 0
            q.check('%s %s' % (nm, 'runs once per iteration' if nm in spec['once'] else 'does not run'), q.same(n['ghost:' + nm], want))
        if first_iter:
            q.check('saved time is the time before the step', q.eq(n['states.t'], o['t']))
        rec = dict(RECORD)
        for on, r in ((o_, RECORD_O), (w_, RECORD_W), (p_, RECORD_P), (mobile, RECORD_M)):
            if on:
                rec.update(r)
        for r, a in rec.items():
            ds = schema().SCHEMA[a][1]
            src = a if first_iter else 'states.' + r
            q.each('saved %s is the value before the step' % r, list(ds), lambda *i, r=r, src=src: q.same(
                n['states.' + r][i if len(i) > 1 else i[0]], o[src][i if len(i) > 1 else i[0]]))
    return post


CASES = [
    # name, banded attr, banded arg, method, devices, damping, exits, mobile, first_iter, args
    ('plain', False, None, 'b', (0, 0, 0), False, False, False, True, {}),
    ('devices', True, None, 'f', (1, 1, 1), True, False, True, True, dict(dt=Real(), H_bc=Real('J'), Q_in=Real('J'), Q_0Ik=Real('N'),
                                                                          u_o=Real('O'), u_w=Real('W'), u_p=Real('P'))),
    ('banded', False, True, 'nnls', (1, 0, 0), False, True, False, True, dict(dt=Real(), Q_in=Real('J'), first_time=True)),
    ('sparse', True, False, 'lsq', (0, 1, 0), False, False, False, True, dict(H_bc=Real('J'))),
    ('iterated', False, None, 'b', (0, 0, 1), True, False, False, True, dict(dt=Real(), num_iter=Int(), head_tol=Real(), Q_in=Real('J'))),
    ('later_iteration', True, None, 'b', (0, 0, 0), False, False, False, False, dict(dt=Real(), first_iter=False)),
]
for name, battr, barg, method, dev, damping, exits, mobile, first, args in CASES:
    sp = stages(*dev, battr if barg is None else barg, damping, exits, method, first)
    a = {k: None for k in 'H_bc Q_in Q_0Ik u_o u_w u_p dt'.split()}
    a['first_time'] = False
    a.update(args)
    if barg is not None:
        a['banded'] = barg
    attrs = dict(banded=battr, _method=method, inertial_damping=damping, _exit_hydraulics=exits, mobile_elements=mobile,
                 orifices='o' if dev[0] else None, weirs='w' if dev[1] else None, pumps='p' if dev[2] else None,
                 n_o=dev[0], n_w=dev[1], n_p=dev[2])
    if first:
        attrs['states'] = {}
    facts = [('fact', lambda q, A: q.arg('dt') > 0)] if 'dt' in args else []
    Contract('step_' + name, 'C16', 'nsuperlink.nSuperLink.step', post_step(sp, first, mobile, *dev), schema=schema(not first),
             scenarios=[scen(name, args=a, attrs=attrs, facts=facts)], stages=sp, rac='none')


# ------------------------------------------------------------------ spin-up
def schema_spin():
    S = schema(False)
    S.SCHEMA['_I'] = ('int', ('N',))
    return S


def spin(repos, Q, Q0):
    st = {'step': dict(args=dict(dt=arg('dt')))}
    if Q:
        st['step']['args']['Q_in'] = arg('Q_in')
    if Q0:
        st['step']['args']['Q_0Ik'] = arg('Q_0Ik')
    if repos:
        st['reposition_junctions'] = dict(after=['step'])
    else:
        st['reposition_junctions'] = dict(never=True)
    return dict(stages=st, protected=['M', 'NK', '_I', 'mobile_elements', '_dt'], once=['step'] + ['reposition_junctions'] * repos)


def post_spin(sp, reset):
    def post(q):
        n = q.new
        q.check('as many steps as asked for', q.same(n['ghost:step'], q.max(q.arg('n_steps'), 0)))
        q.check('junctions are moved after every step if asked for', q.same(
            n['ghost:reposition_junctions'], q.max(q.arg('n_steps'), 0) if 'reposition_junctions' in sp['once'] else 0))
        if reset:
            q.check('time restarts', q.same(n['t'], 0))
            q.check('step counter restarts', q.same(n['iter_count'], 0))
    return post


for name, repos, reset, Q, Q0 in (('default', False, True, False, False), ('repositioned', True, True, True, False), ('kept', False, False, True, True)):
    sp = spin(repos, Q, Q0)
    Contract('spinup_' + name, 'C16', 'nsuperlink.nSuperLink.spinup', post_spin(sp, reset), schema=schema_spin(), stages=sp, rac='none',
             scenarios=[scen(name, args=dict(n_steps=Int(), dt=Real(), Q_in=Real('J') if Q else None, Q_0Ik=Real('N') if Q0 else None,
                                             reposition_junctions=repos, reset_counters=reset))])


# ------------------------------------------------------------------ bounded: the same statements on running models
def gen_run(g, s, np, obj, args):
    r = g.r
    a = dict(dt=r.choice([.1, 1., 5., 30.]), Q_in=np.array([r.uniform(0, .2) for _ in range(obj.M)]), H_bc=np.copy(obj.H_j),
             first_time=r.random() < .2)
    if r.random() < .4:
        a['Q_0Ik'] = np.array([r.uniform(0, .01) for _ in range(obj._I.size)])
    for n, u in ((obj.n_o, 'u_o'), (obj.n_w, 'u_w'), (obj.n_p, 'u_p')):
        if n and r.random() < .7:
            a[u] = np.array([r.random() for _ in range(n)])
    if r.random() < .3:
        del a['dt']
    if r.random() < .2:
        a['banded'] = r.random() < .5
    if s['name'] == 'iterated':
        a.update(num_iter=r.randint(1, 5), head_tol=r.choice([0., 1e-4, .0015, .1]))
    return a


def warm(g, obj, np):
    """steps before the one examined; every fourth model never made one"""
    obj._method = g.r.choice(['b', 'b', 'f', 'lsq'])
    for _ in range(g.r.choice([0, 1, 2, 3])):
        obj.step(dt=g.r.choice([1., 5.]), H_bc=np.copy(obj.H_j), Q_in=np.array([g.r.uniform(0, .2) for _ in range(obj.M)]))
    if g.r.random() < .2:
        obj._dt = g.r.choice([2., 7.])


def run_step(obj, a):
    import numpy as np
    dev = (bool(obj.n_o), bool(obj.n_w), bool(obj.n_p))
    sp = stages(*dev, obj.banded if a.get('banded') is None else a['banded'], obj.inertial_damping, obj._exit_hydraulics, obj._method)
    fails, count = [], {nm: 0 for nm in sp['stages']}
    init = {nm: copy.deepcopy(getattr(obj, nm)) for nm in ('_dt',)}
    keep = {k: copy.deepcopy(v) for k, v in a.items()}

    class Env:
        def __init__(self, c):
            self.count = c

        def arg(self, nm):
            return a.get(nm)

        def either(self, nm, attr):
            return a[nm] if a.get(nm) is not None else init[attr]

        def first(self, x, y):
            return x if self.count == 0 else y

    def wrap(nm, f):
        import inspect
        sig = inspect.signature(f)

        def g(*p, **kw):
            st = sp['stages'][nm]
            for b in st.get('after', ()):
                if count[b] != count[nm] + 1:
                    fails.append('%s runs after %s' % (nm, b))
            b = sig.bind(*p, **kw)
            b.apply_defaults()
            for prm, want in st.get('args', {}).items():
                x, y = b.arguments.get(prm), want(Env(count[nm]))
                if (x is None) != (y is None) or not (x is None or np.array_equal(x, y)):
                    fails.append('%s is given %s' % (nm, prm))
            count[nm] += 1
            return f(*p, **kw)
        return g
    for nm in sp['stages']:
        if hasattr(obj, nm):
            obj.__dict__[nm] = wrap(nm, getattr(obj, nm))
    pre = {at: np.copy(getattr(obj, at)) for at in STATE if hasattr(obj, at)}
    t0, n0 = obj.t, obj.iter_count
    try:
        obj.step(**a)
    finally:
        for nm in sp['stages']:
            obj.__dict__.pop(nm, None)
    rec = dict(RECORD)
    for on, r in zip(dev + (obj.mobile_elements,), (RECORD_O, RECORD_W, RECORD_P, RECORD_M)):
        if on:
            rec.update(r)
    for k, v in keep.items():
        if not np.array_equal(v, a[k]):
            fails.append('argument %s is left as it was' % k)
    return dict(order=fails, count=count, once=sp['once'], pre=pre, rec=rec, t0=t0, n0=n0, dt=a.get('dt', init['_dt']), num_iter=max(1, a.get('num_iter', 1)))


def post_run(q):
    import numpy as np
    r, o = q.ret, q.obj
    q.check('stages run in order with the arguments given' + ''.join(' / ' + x for x in sorted(set(r['order']))[:2]), not r['order'])
    k = o.iter_elapsed
    q.check('iterations', 1 <= k <= r['num_iter'])
    for nm, c in r['count'].items():
        q.check('%s runs as often as it should' % nm, c == (k if nm in r['once'] else 0))
    q.check('time advances by the step', q.eq(o.t, r['t0'] + r['dt']))
    q.check('the step counter advances by one', o.iter_count == r['n0'] + 1)
    q.check('saved time is the time before the step', o.states['t'] == r['t0'])
    for nm, at in r['rec'].items():
        q.check('saved %s is the value before the step' % nm, at not in r['pre'] or np.array_equal(o.states[nm], r['pre'][at], equal_nan=True))


Contract('step_run', 'C16', 'nsuperlink.nSuperLink.step', post_run, schema=schema(False), prove=False, group='natural', gen=gen_run, call=run_step, weight=2, noraise='bug',
         why='bounded counterpart of the contracts on step: the stages are called for real on random models, so that what they do to the arguments and the saved states is seen',
         scenarios=[scen('single', prepare=warm), scen('iterated', prepare=warm), scen('mobile', prepare=warm, model=dict(mobile_elements=True, internal_links=4))])


def run_spin(obj, a):
    n = []
    f, g = obj.step, getattr(obj, 'reposition_junctions', None)
    obj.__dict__['step'] = lambda *p, **kw: (n.append(('s', kw.get('dt'))), f(*p, **kw))[1]
    obj.__dict__['reposition_junctions'] = lambda *p, **kw: (n.append(('r', None)), g(*p, **kw))[1]
    obj.spinup(**a)
    for k in ('step', 'reposition_junctions'):
        obj.__dict__.pop(k, None)
    return dict(calls=n)


def post_spin_run(q):
    o, a = q.obj, q.args
    want = []
    for _ in range(a['n_steps']):
        want.append(('s', a['dt']))
        if a['reposition_junctions']:
            want.append(('r', None))
    q.check('steps as asked for', q.ret['calls'] == want)
    if a['reset_counters']:
        q.check('counters restart', o.t == 0 and o.iter_count == 0)
    else:
        q.check('counters go on', o.iter_count == q.old['iter_count'] + a['n_steps'] and q.eq(o.t, q.old['t'] + a['n_steps'] * a['dt']))


def gen_spin(g, s, np, obj, args):
    return dict(n_steps=g.r.randint(0, 4), dt=g.r.choice([1., 10.]), reposition_junctions=bool(obj.mobile_elements) and g.r.random() < .7,
                reset_counters=g.r.random() < .5)


Contract('spinup_run', 'C16', 'nsuperlink.nSuperLink.spinup', post_spin_run, schema=schema(False), prove=False, group='natural', gen=gen_spin, call=run_spin, noraise='bug',
         why='bounded counterpart of the contracts on spinup', scenarios=[scen('fixed', prepare=warm), scen('mobile', prepare=warm, model=dict(mobile_elements=True, internal_links=4))])
