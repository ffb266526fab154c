"""C23 water quality: concentrations at superlink ends and inside superlinks; limits."""
from .base import Contract, scen, Real, Int, Bool
from . import wq_model as WQ
from .c22_wqmatrix import limits


def post_ends(q):
    o, n = q.old, q.new
    cJ = lambda s, k: o['_c_j'][o['_J_' + s][k]]
    raw = lambda s, k: o['_rho_' + s][k] * cJ('uk', k) + o['_tau_' + s][k] * cJ('dk', k) + o['_zeta_' + s][k]
    for s, c in (('uk', '_c_1k'), ('dk', '_c_Np1k')):
        q.each('end concentration is the linear response to both superjunctions: ' + s, ['K'], lambda k, s=s: q.eq(
            n['_c_' + s][k], limits(q, raw(s, k))))
        q.each('concentration at the junction next to the end: ' + s, ['K'], lambda k, s=s, c=c: q.eq(
            n[c][k], limits(q, o['_theta_' + s][k] * raw(s, k) + o['_sigma_' + s][k] * cJ(s, k) + o['_xi_' + s][k])))


Contract('wq_end_states', 'C23', 'nquality.QualityBuilder.solve_boundary_states', post_ends, schema=WQ)


def post_internals(backwards):
    def post(q):
        o, n = q.old, q.new

        def fwd(i):
            k, I = o['_ki'][i], o['_I_1k'][o['_ki'][i]] + i - o['_i_1k'][o['_ki'][i]]
            return o['_U_Ik'][I] * n['_c_Ik'][I + 1] + o['_V_Ik'][I] + o['_W_Ik'][I] * o['_c_1k'][k]

        def bwd(i):
            k, I = o['_ki'][i], o['_I_1k'][o['_ki'][i]] + i - o['_i_1k'][o['_ki'][i]]
            return o['_X_Ik'][I] * n['_c_Ik'][I] + o['_Y_Ik'][I] + o['_Z_Ik'][I] * o['_c_Np1k'][k]
        first = lambda i: q.same(o['_i_1k'][o['_ki'][i]], i)
        hk = lambda i: [o['_ki'][i]]
        q.each('concentration of every link but the first: forward relation', ['L'], lambda i: q.eq(n['_c_ik'][i], limits(q, fwd(i))),
               when=lambda i: q.Not(first(i)), hints=hk)
        q.each('concentration of the first link', ['L'], lambda i: q.eq(n['_c_ik'][i], limits(q, bwd(i) if backwards else fwd(i))), when=first, hints=hk)

        def inner(I):
            k = o['_kI'][I]
            i = o['_i_1k'][k] + I - o['_I_1k'][k]
            raw = o['_U_Ik'][I] * n['_c_Ik'][I + 1] + o['_V_Ik'][I] + o['_W_Ik'][I] * o['_c_1k'][k]
            return q.eq(n['_c_Ik'][I], limits(q, q.div0(raw - o['_Y_Ik'][I] - o['_Z_Ik'][I] * o['_c_Np1k'][k], o['_X_Ik'][I])))
        isin = lambda I: q.And(I > o['_I_1k'][o['_kI'][I]], I < o['_I_1k'][o['_kI'][I]] + o['nk'][o['_kI'][I]])
        q.each('concentration of an inner junction: backward relation', ['N'], inner, when=isin, hints=lambda I: [o['_kI'][I]])
        q.each('first junction', ['K'], lambda k: q.eq(n['_c_Ik'][o['_I_1k'][k]], o['_c_1k'][k]))
        q.each('last junction', ['K'], lambda k: q.eq(n['_c_Ik'][o['_I_1k'][k] + o['nk'][k]], o['_c_Np1k'][k]))
        for nm, d, own in (('_c_ik', 'L', '_ki'), ('_c_Ik', 'N', '_kI')):
            q.each('within the limits: ' + nm, [d], lambda i, nm=nm: q.And(q.le(o['_c_min'], n[nm][i]), q.le(n[nm][i], o['_c_max'])),
                   hints=lambda i, own=own: [o[own][i]])
    return post


LIM = [('elem', nm, lambda q, a, k, nm=nm: q.And(a['_c_min'] <= a[nm][k], a[nm][k] <= a['_c_max'])) for nm in ('_c_1k', '_c_Np1k')]
for nm, b in (('backwards', True), ('forwards', False)):
    Contract('wq_internals_' + nm, 'C23', 'nquality.QualityBuilder.solve_internals_' + nm, post_internals(b), schema=WQ, facts=LIM, rtol=1e-4, atol=1e-6)


def post_rec(q):
    o = q.old
    I_ = lambda i: o['_I_1k'][o['_ki'][i]] + i - o['_i_1k'][o['_ki'][i]]
    cN = lambda i: o['_c_Ik'][o['_I_1k'][o['_ki'][i]] + o['nk'][o['_ki'][i]]]
    c1 = lambda i: o['_c_Ik'][o['_I_1k'][o['_ki'][i]]]
    q.each('backward estimate', ['L'], lambda i: q.eq(q.ret[0][i], o['_X_Ik'][I_(i)] * o['_c_Ik'][I_(i)] + o['_Y_Ik'][I_(i)] + o['_Z_Ik'][I_(i)] * cN(i)))
    q.each('forward estimate', ['L'], lambda i: q.eq(q.ret[1][i], o['_U_Ik'][I_(i)] * o['_c_Ik'][I_(i) + 1] + o['_V_Ik'][I_(i)] + o['_W_Ik'][I_(i)] * c1(i)))


Contract('wq_recurrence', 'C23', 'nquality.QualityBuilder.link_concentrations_from_recurrence', post_rec, schema=WQ,
         prove=False, why='numpy.repeat with one count per superlink')


def post_step(q):
    """a whole step: the system solved holds the given (or default) inflows, boundary values and time step, and every state is within the limits"""
    o, n = q.old, q.new
    dt = q.arg('dt') if q.has('dt') else o['hydraulics.t'] - o['hydraulics.states.t']
    Vn = lambda j: o['hydraulics._A_sj'][j] * (o['hydraulics.H_j'][j] - o['hydraulics._z_inv_j'][j])
    pos, neg = (lambda x: x if x >= 0 else 0.0), (lambda x: 0.0 if x >= 0 else x)

    def rhs(j):
        if o['bc'][j]:
            return q.eq(n['b'][j], q.arg('c_bc')[j] if q.has('c_bc') else o['_c_j'][j])
        r = Vn(j) * o['_c_j'][j] / dt
        Q0 = q.arg('Q_0j')[j] if q.has('Q_0j') else (0.0 if o['hydraulics._Q_in'] is None else o['hydraulics._Q_in'][j])
        r = r + (Q0 * q.arg('c_0j')[j] if q.has('c_0j') else 0.0)
        for k in range(int(q.dim('K'))):
            du = 2 * o['_D_uk'][k] * n['_A_uk_next'][k] / o['_dx_uk'][k]
            dd = 2 * o['_D_dk'][k] * n['_A_dk_next'][k] / o['_dx_dk'][k]
            if o['_J_uk'][k] == j:
                r = r + (du - neg(n['_Q_uk_up_next'][k])) * n['_zeta_uk'][k]
            if o['_J_dk'][k] == j:
                r = r + (dd + pos(n['_Q_dk_dn_next'][k])) * n['_zeta_dk'][k]
        return q.eq(n['b'][j], r)
    q.each('the system holds the inputs of this step', ['J'], rhs)
    mats = ['A'] + [X for X, d in (('O', 'n_o'), ('W', 'n_w'), ('P', 'n_p')) if o[d] > 0]

    def coef(i, j):
        r = n['A'][i, j]
        for X in mats[1:]:
            r = r + n[X][i, j]
        return r
    for nm, d in (('_c_j', 'J'), ('_c_ik', 'L'), ('_c_Ik', 'N'), ('_c_uk', 'K'), ('_c_dk', 'K'), ('_c_1k', 'K'), ('_c_Np1k', 'K')):
        q.each('within the limits: ' + nm, [d], lambda i, nm=nm: q.And(q.le(o['_c_min'], n[nm][i]), q.le(n[nm][i], o['_c_max'])))
    q.each('areas, flows and volumes are those of the new hydraulic state', ['J'], lambda j: q.eq(n['_V_j_next'][j], Vn(j)))
    x = q.solve('system of this step', q.dim('J'), coef, lambda i: n['b'][i])
    q.each('superjunction concentrations solve the system of this step', ['J'], lambda j: q.eq(n['_c_j'][j], limits(q, x[j])))


def advance(g, obj, np):
    """the hydraulic model moves on before the water quality step"""
    M, N, r = obj.M, obj._I.size, g.r
    opt = lambda f: f() if r.random() < .6 else None
    try:
        obj.hydraulics.step(dt=r.choice([1., 5., 20.]), Q_in=opt(lambda: g.np.rand(M)), Q_0Ik=opt(lambda: g.np.rand(N) * .01))
    except (ValueError, AssertionError, np.linalg.LinAlgError):
        pass


def step_gen(g, s, np, obj=None, args=None):
    M, N, r = obj.M, obj._I.size, g.r
    opt = lambda f: f() if r.random() < .6 else None
    return {'dt': opt(lambda: r.choice([1., 5., 20.])), 'c_bc': opt(lambda: g.np.rand(M)), 'c_0j': opt(lambda: g.np.rand(M)), 'Q_0j': opt(lambda: g.np.rand(M)),
            'c_0Ik': opt(lambda: g.np.rand(N)), 'Q_0Ik': opt(lambda: g.np.rand(N) * .01)}


Contract('wq_step', 'C23', 'nquality.QualityBuilder.step', post_step, schema=WQ, prove=False, why='a whole step', gen=step_gen, group='natural', scenarios=[scen('all', prepare=advance)],
         rtol=1e-4, atol=1e-6, weight=4)


# ---------------------------------------------------------------- a whole step, its parts taken by contract
def the_dt(E):
    from pydv.core import sub
    return E.arg('dt') if E.has('dt') else sub(E.old('hydraulics.t'), E.old('hydraulics.states.t'))


def default(nm, hyd):
    """the argument given, else what the hydraulic model was given"""
    def pre(E, same):
        got = E.bound.get('_' + nm)
        if E.has(nm):
            return same(got, E.arg(nm))
        return same(got, E.state.objs[E.task.nested['hydraulics'].id][hyd])
    return pre


def wq_stages(banded):
    S = {}

    def add(nm, after=(), pre=None, **args):
        S[nm] = dict(after=list(after), args=args, pre=pre or {})
    passed = lambda nm: (lambda E: E.arg(nm))
    add('import_hydraulic_states', _dt=the_dt)
    imp = ['import_hydraulic_states']
    add('link_coeffs', imp, _dt=the_dt)
    add('node_coeffs', imp, _dt=the_dt, _c_0Ik=passed('c_0Ik'), pre={'interior inflows: given, else those of the hydraulic model': default('Q_0Ik', '_Q_0Ik')})
    co = ['link_coeffs', 'node_coeffs']
    add('forward_recurrence', co)
    add('backward_recurrence', co)
    add('boundary_coefficients', co + ['forward_recurrence', 'backward_recurrence'])
    add('sparse_matrix_equations', ['boundary_coefficients'] + imp, _dt=the_dt, c_bc=passed('c_bc'), _c_0j=passed('c_0j'),
        pre={'inflows: given, else those of the hydraulic model': default('Q_0j', '_Q_in')})
    solve, other = ('solve_banded_matrix', 'solve_sparse_matrix')[::1 if banded else -1]
    add(solve, ['sparse_matrix_equations'])
    add('solve_boundary_states', [solve])
    add('solve_internals_backwards', ['solve_boundary_states'])
    once = list(S)
    for nm in (other, 'solve_internals_forwards'):
        S[nm] = dict(never=True)
    S['node_quantities'] = dict(free=True)       # nothing reads what it computes
    return dict(stages=S, protected=['hydraulics'], once=once)


def post_order(sp):
    def post(q):
        for nm, s in sp['stages'].items():
            if s.get('free'):
                continue
            q.check('%s runs %s' % (nm, 'never' if s.get('never') else 'once'), q.same(q.new['ghost:' + nm], 0 if s.get('never') else 1))
    return post


GIVEN = {'dt': Real(), 'c_bc': Real('J'), 'c_0j': Real('J'), 'Q_0j': Real('J'), 'c_0Ik': Real('N'), 'Q_0Ik': Real('N')}
for _b in (False, True):
    _s = wq_stages(_b)
    _a = {'hydraulics.banded': _b}
    Contract('wq_whole_step_' + ('banded' if _b else 'sparse'), 'C23', 'nquality.QualityBuilder.step', post_order(_s), schema=WQ, rac='none', stages=_s, scenarios=[
        scen('defaults', attrs=_a), scen('all given', args=GIVEN, attrs=_a), scen('inflows given', args={k: GIVEN[k] for k in ('Q_0j', 'Q_0Ik')}, attrs=_a),
        scen('concentrations given', args={k: GIVEN[k] for k in ('dt', 'c_0j', 'c_0Ik', 'c_bc')}, attrs=_a)])
