"""C10: the superjunction system is the mass balance of every superjunction."""
from .base import Contract, scen, Real, Int, Bool
from .c06_momentum import dt_of


def tie(q, j, a, b):
    return q.ite(q.same(a, j), b, 0.0)


def post_matrix(q):
    dt = dt_of(q)
    o, n = q.old, q.new
    xi = lambda s, k: o['_dx_' + s][k] * o['_B_' + s][k] * o['_theta_' + s][k] / (2 * dt)
    bc = o['bc']

    def off(j, m, dim, ju, jd, beta, alpha):
        """flow leaving j depends on the head at m"""
        return q.sum(q.dim(dim), lambda k: q.ite(q.And(q.same(o[ju][k], j), q.same(o[jd][k], m)), o[beta][k], 0.0)
                     - q.ite(q.And(q.same(o[jd][k], j), q.same(o[ju][k], m)), o[alpha][k], 0.0))

    def diag(j, dim, ju, jd, alpha, beta):
        return q.sum(q.dim(dim), lambda k: tie(q, j, o[ju][k], o[alpha][k]) - tie(q, j, o[jd][k], o[beta][k]))

    def A_diag(j):
        r = (o['_A_sj'][j] / dt + diag(j, 'K', '_J_uk', '_J_dk', '_alpha_uk', '_beta_dk')
             + q.sum(q.dim('K'), lambda k: tie(q, j, o['_J_uk'][k], xi('uk', k)) + tie(q, j, o['_J_dk'][k], xi('dk', k)))
             + off(j, j, 'K', '_J_uk', '_J_dk', '_beta_uk', '_alpha_dk'))
        return q.eq(n['A'][j, j], r)
    free = lambda j, *m: q.Not(bc[j])

    def offd(j, m, g):
        q.hint(lambda: o[g][j, m])
        return q.And(q.Not(bc[j]), q.Not(q.same(j, m)))
    q.each('A diagonal: storage, outflow sensitivity and end storage', ['J'], A_diag, when=free)
    q.each('A off-diagonal: dependence of net outflow on the other head', ['J', 'J'], lambda j, m: q.eq(
        n['A'][j, m], off(j, m, 'K', '_J_uk', '_J_dk', '_beta_uk', '_alpha_dk')), when=lambda j, m: offd(j, m, '_g_A'))
    q.each('A boundary row: unit diagonal', ['J'], lambda j: q.eq(n['A'][j, j], 1.0), when=lambda j: bc[j])
    q.each('A boundary row: off-diagonals stay zero', ['J', 'J'], lambda j, m: q.eq(n['A'][j, m], 0.0),
           when=lambda j, m: q.And(bc[j], q.Not(q.same(j, m))))
    on = [x for x in (('orifice', 'O', 'O', 'o'), ('weir', 'W', 'W', 'w'), ('pump', 'P', 'P', 'p')) if x[1] in q.scenario]
    for nm, X, dim, s in on:
        ju, jd, al, be = '_J_u' + s, '_J_d' + s, '_alpha_' + s, '_beta_' + s
        q.each(nm + ' diagonal', ['J'], lambda j, a=(X, dim, ju, jd, al, be): q.eq(
            n[a[0]][j, j], diag(j, *a[1:]) + off(j, j, a[1], a[2], a[3], a[5], a[4])), when=free)
        q.each(nm + ' off-diagonal', ['J', 'J'], lambda j, m, a=(X, dim, ju, jd, al, be): q.eq(
            n[a[0]][j, m], off(j, m, a[1], a[2], a[3], a[5], a[4])), when=lambda j, m, g='_g_' + X: offd(j, m, g))
        q.each(nm + ' boundary rows are empty', ['J', 'J'], lambda j, m, a=(X,): q.eq(n[a[0]][j, m], 0.0),
               when=lambda j, m: bc[j])
    Hp = o['states.H_j']

    def rhs(j):
        r = o['_A_sj'][j] * Hp[j] / dt + (q.arg('_Q_0j')[j] if q.has('_Q_0j') else 0.0)
        r = r + q.sum(q.dim('K'), lambda k: tie(q, j, o['_J_dk'][k], o['_chi_dk'][k] + xi('dk', k) * Hp[j])
                      + tie(q, j, o['_J_uk'][k], xi('uk', k) * Hp[j] - o['_chi_uk'][k]))
        for nm, X, dim, s in on:
            r = r + q.sum(q.dim(dim), lambda k, s=s: tie(q, j, o['_J_d' + s][k], o['_chi_' + s][k])
                          - tie(q, j, o['_J_u' + s][k], o['_chi_' + s][k]))
        return q.eq(n['b'][j], r)
    q.each('right-hand side: stored volume, inflow and constant flow parts', ['J'], rhs, when=free)
    q.each('right-hand side of a boundary row is the prescribed head', ['J'], lambda j: q.eq(
        n['b'][j], q.arg('H_bc')[j] if q.has('H_bc') else o['H_j'][j]), when=lambda j: bc[j])


def support(X, g, ju, jd, dim):
    """system invariant: off-diagonal entries are zero except where an element joins the two superjunctions
    (ghost array g names one), and rows of boundary superjunctions are zero off the diagonal"""
    def f(q, a, j, m):
        k = a[g][j, m]
        return q.Or(q.same(j, m), q.And(q.Not(q.same(j, m)), q.eq(a[X][j, m], 0.0)),
                    q.And(q.Not(a['bc'][j]), k >= 0, k < q.dim(dim),
                          q.Or(q.And(q.same(a[ju][k], j), q.same(a[jd][k], m)),
                               q.And(q.same(a[jd][k], j), q.same(a[ju][k], m)))))
    return ('elem', X, f)


def empty_bc(X):
    return ('elem', X, lambda q, a, j, m: q.Or(q.Not(a['bc'][j]), q.eq(a[X][j, m], 0.0)))


def sc(name, which='', args=None):
    at = {'_g_A': Int('J', 'J')}
    fs = [support('A', '_g_A', '_J_uk', '_J_dk', 'K')]
    dims = {'O': 0, 'W': 0, 'P': 0}
    for X, s in (('O', 'o'), ('W', 'w'), ('P', 'p')):
        if X in which:
            at['_g_' + X] = Int('J', 'J')
            fs += [support(X, '_g_' + X, '_J_u' + s, '_J_d' + s, X), empty_bc(X)]
            dims[X] = 'pos'
    return scen(name, args or {'H_bc': None, '_Q_0j': None, '_dt': None}, attrs=at, dims=dims, facts=fs,
                keep=('A', 'O', 'W', 'P', 'bc'))


GIVEN = {'H_bc': Real('J'), '_Q_0j': Real('J'), '_dt': Real()}
POS = [('fact', lambda q, a: a['arg._dt'] > 0)]
S = [sc('pipes only'), sc('pipes, given inputs', '', GIVEN), sc('with O', 'O'), sc('with W', 'W'), sc('with P', 'P'),
     sc('with OWP, given inputs', 'OWP', GIVEN)]
for x in S:
    if 'given' in x['name']:
        x['facts'] += POS
Contract('matrix_equations', 'C10', 'nsuperlink.nSuperLink.sparse_matrix_equations', post_matrix, scenarios=S, weight=5)
