"""C22 water quality: the superjunction system is the contaminant mass balance of every superjunction; its solution."""
from .base import Contract, scen, Real, Int, Bool
from . import wq_model as WQ
from .c20_quality import dt_of
from .c10_matrix import tie, support, empty_bc
from .c11_heads import coef, bscen, dominant


def post_matrix(q):
    dt = dt_of(q)
    o, n = q.old, q.new
    bc = o['bc']
    Vn, Vp = o['_V_j_next'], o['_V_j_prev']
    diff = lambda s, k: q.div(2 * o['_D_' + s][k] * o['_A_%s_next' % s][k], o['_dx_' + s][k])
    Qu, Qd = (lambda k: o['_Q_uk_up_next'][k]), (lambda k: o['_Q_dk_dn_next'][k])
    pos, neg = (lambda x: q.ite(x >= 0, x, 0.0)), (lambda x: q.ite(x >= 0, 0.0, x))
    # mass leaving the upstream superjunction  = lu c_u_own + ..., with c_uk = rho c_Ju + tau c_Jd + zeta
    out_own = lambda k: pos(Qu(k)) + diff('uk', k) + (neg(Qu(k)) - diff('uk', k)) * o['_rho_uk'][k]
    out_oth = lambda k: (neg(Qu(k)) - diff('uk', k)) * o['_tau_uk'][k]
    out_con = lambda k: (neg(Qu(k)) - diff('uk', k)) * o['_zeta_uk'][k]
    # mass entering the downstream superjunction
    in_own = lambda k: neg(Qd(k)) - diff('dk', k) + (pos(Qd(k)) + diff('dk', k)) * o['_tau_dk'][k]
    in_oth = lambda k: (pos(Qd(k)) + diff('dk', k)) * o['_rho_dk'][k]
    in_con = lambda k: (pos(Qd(k)) + diff('dk', k)) * o['_zeta_dk'][k]
    ju, jd = o['_J_uk'], o['_J_dk']

    def off(j, m):
        return q.sum(q.dim('K'), lambda k: q.ite(q.And(q.same(ju[k], j), q.same(jd[k], m)), out_oth(k), 0.0)
                     - q.ite(q.And(q.same(jd[k], j), q.same(ju[k], m)), in_oth(k), 0.0))

    def A_diag(j):
        r = q.div(2 * Vn[j] - Vp[j], dt) + o['_K_j'][j] * Vn[j]
        r = r + q.sum(q.dim('K'), lambda k: tie(q, j, ju[k], out_own(k)) - tie(q, j, jd[k], in_own(k))) + off(j, j)
        return q.eq(n['A'][j, j], r)
    free = lambda j, *m: q.Not(bc[j])

    def offd(j, m, g):
        q.hint(lambda: o[g][j, m])
        return q.And(q.Not(bc[j]), q.Not(q.same(j, m)))
    q.each('A diagonal: storage, decay and exchange with the superlinks', ['J'], A_diag, when=free)
    q.each('A off-diagonal: exchange through the superlinks with the other superjunction', ['J', 'J'], lambda j, m: q.eq(n['A'][j, m], off(j, m)),
           when=lambda j, m: offd(j, m, '_g_A'))
    q.each('A boundary row: unit diagonal', ['J'], lambda j: q.eq(n['A'][j, j], 1.0), when=lambda j: bc[j])
    q.each('A boundary row: off-diagonals stay zero', ['J', 'J'], lambda j, m: q.eq(n['A'][j, m], 0.0),
           when=lambda j, m: q.And(bc[j], q.Not(q.same(j, m))))
    on = [x for x in (('orifice', 'O', 'O', 'o'), ('weir', 'W', 'W', 'w'), ('pump', 'P', 'P', 'p')) if x[1] in q.scenario]
    for nm, X, dim, s in on:
        a, b, Q = o['_J_u' + s], o['_J_d' + s], (lambda k, s=s: o['_Q_%s_next' % s][k])

        def offc(j, m, a=a, b=b, Q=Q, dim=dim):
            return q.sum(q.dim(dim), lambda k: q.ite(q.And(q.same(a[k], j), q.same(b[k], m)), neg(Q(k)), 0.0)
                         - q.ite(q.And(q.same(b[k], j), q.same(a[k], m)), pos(Q(k)), 0.0))
        q.each(nm + ' diagonal: carries away what flows out', ['J'], lambda j, a=a, b=b, Q=Q, dim=dim, X=X, offc=offc: q.eq(
            n[X][j, j], q.sum(q.dim(dim), lambda k: tie(q, j, a[k], pos(Q(k))) - tie(q, j, b[k], neg(Q(k)))) + offc(j, j)), when=free)
        q.each(nm + ' off-diagonal: brings in what flows in', ['J', 'J'], lambda j, m, X=X, offc=offc: q.eq(n[X][j, m], offc(j, m)),
               when=lambda j, m, g='_g_' + X: offd(j, m, g))
        q.each(nm + ' boundary rows are empty', ['J', 'J'], lambda j, m, X=X: q.eq(n[X][j, m], 0.0), when=lambda j, m: bc[j])

    def rhs(j):
        r = q.div(Vn[j] * o['_c_j'][j], dt)
        if q.has('_Q_0j') and q.has('_c_0j'):
            r = r + q.arg('_Q_0j')[j] * q.arg('_c_0j')[j]
        r = r + q.sum(q.dim('K'), lambda k: tie(q, j, jd[k], in_con(k)) - tie(q, j, ju[k], out_con(k)))
        return q.eq(n['b'][j], r)
    q.each('right-hand side: stored mass, direct inflow and constant parts of the exchange', ['J'], rhs, when=free)
    q.each('right-hand side of a boundary row is the prescribed concentration', ['J'], lambda j: q.eq(
        n['b'][j], q.arg('c_bc')[j] if q.has('c_bc') else o['_c_j'][j]), when=lambda j: bc[j])


def sc(name, which='', args=None, facts=()):
    at = {'_g_A': Int('J', 'J')}
    fs = [support('A', '_g_A', '_J_uk', '_J_dk', 'K')]
    dims = {'O': 0, 'W': 0, 'P': 0}
    for X, s in (('O', 'o'), ('W', 'w'), ('P', 'p')):
        if X in which:
            at['_g_' + X] = Int('J', 'J')
            fs += [support(X, '_g_' + X, '_J_u' + s, '_J_d' + s, X), empty_bc(X)]
            dims[X] = 'pos'
    return scen(name, args or {'c_bc': None, '_Q_0j': None, '_c_0j': None, '_dt': None}, attrs=at, dims=dims, facts=fs + list(facts),
                keep=('A', 'O', 'W', 'P', 'bc'))


GIVEN = {'c_bc': Real('J'), '_Q_0j': Real('J'), '_c_0j': Real('J'), '_dt': Real()}
POS = [('fact', lambda q, a: a['arg._dt'] > 0)]
Contract('wq_matrix', 'C22', 'nquality.QualityBuilder.sparse_matrix_equations', post_matrix, schema=WQ, weight=5, scenarios=[
    sc('pipes only'), sc('pipes, given inputs', '', GIVEN, POS), sc('with O', 'O'), sc('with W', 'W'), sc('with P', 'P'),
    sc('with OWP, given inputs', 'OWP', GIVEN, POS)])


def limits(q, x):
    return q.min(q.max(x, q.old['_c_min']), q.old['_c_max'])


def post_solve(q):
    x = q.solve('system solved', q.dim('J'), lambda i, j: coef(q, i, j), lambda i: q.old['b'][i])
    q.each('concentrations are the solution within the limits', ['J'], lambda j: q.eq(q.new['_c_j'][j], limits(q, x[j])))


def post_banded(q):
    x = q.solve('system solved', q.dim('J'), lambda i, j: coef(q, i, j), lambda i: q.old['b'][i], band=q.old['bandwidth'])
    q.each('concentrations are the solution within the limits', ['J'], lambda j: q.eq(q.new['_c_j'][j], limits(q, x[j])))


P0 = {'u': None, 'implicit': True}
Contract('wq_solve', 'C22', 'nquality.QualityBuilder.solve_sparse_matrix', post_solve, schema=WQ, params=P0, scenarios=[
    scen('pipes only', dims={'O': 0, 'W': 0, 'P': 0}, prepare=dominant), scen('control: orifices', dims={'O': 'pos', 'W': 0, 'P': 0}, prepare=dominant),
    scen('control: weirs and pumps', dims={'O': 0, 'W': 'pos', 'P': 'pos'}, prepare=dominant)])
Contract('wq_solve_banded', 'C22', 'nquality.QualityBuilder.solve_banded_matrix', post_banded, schema=WQ, params=P0, scenarios=[
    bscen('pipes only', {'O': 0, 'W': 0, 'P': 0}, ['A']), bscen('control: all', {'O': 'pos', 'W': 'pos', 'P': 'pos'}, ['A', 'O', 'W', 'P'])])
