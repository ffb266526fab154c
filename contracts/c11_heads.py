"""C11 superjunction heads: the system solved and the limits imposed; C15 end flows, end depths and
internal states recovered from the heads."""
from .base import Contract, scen, Real, Int, Bool


def limits(q, x, j):
    o = q.old
    return q.min(q.max(x, o['_z_inv_j'][j]), o['_z_inv_j'][j] + o['max_depth'][j])


def coef(q, i, j):
    a = q.old['A'][i, j]
    if q.scenario.startswith('control'):
        a = a + q.old['O'][i, j] + q.old['W'][i, j] + q.old['P'][i, j]
    return a


def post_heads(q):
    x = q.solve('system solved', q.dim('J'), lambda i, j: coef(q, i, j), lambda i: q.old['b'][i])
    q.each('heads are the solution within invert and maximum depth', ['J'], lambda j: q.eq(
        q.new['H_j'][j], limits(q, x[j], j)))


def banded_facts(q, a, i, j):
    w = a['bandwidth']
    return q.Or(q.And(i - j <= w, j - i <= w), q.same(a['A'][i, j], 0.0))


def post_banded(q):
    x = q.solve('system solved', q.dim('J'), lambda i, j: coef(q, i, j), lambda i: q.old['b'][i], band=q.old['bandwidth'])
    q.each('heads are the solution within invert and maximum depth', ['J'], lambda j: q.eq(
        q.new['H_j'][j], limits(q, x[j], j)))


def ctl(dims):
    return [scen('pipes only', dims={'O': 0, 'W': 0, 'P': 0}, **dims), scen('control: orifices', dims={'O': 'pos', 'W': 0, 'P': 0}, **dims),
            scen('control: weirs and pumps', dims={'O': 0, 'W': 'pos', 'P': 'pos'}, **dims)]


def dominant(g, obj, np):
    """keep the random system solvable"""
    M = obj.A.shape[0]
    obj.A[np.arange(M), np.arange(M)] += np.abs(obj.A).sum(axis=1) + 1.0


Contract('solve_heads', 'C11', 'nsuperlink.nSuperLink.solve_sparse_matrix', post_heads, scenarios=ctl({'prepare': dominant}),
         params={'u': None, 'implicit': True})


def bscen(name, dims, mats):
    def in_band(X):
        return ('elem', X, lambda q, a, i, j: q.Or(q.And(i - j <= a['bandwidth'], j - i <= a['bandwidth']), q.same(a[X][i, j], 0.0)))
    return scen(name, dims=dims, attrs={'bandwidth': Int()}, prepare=band_prep,
                facts=[('fact', lambda q, a: q.And(a['bandwidth'] >= 0, a['bandwidth'] < q.dim('J')))] + [in_band(X) for X in mats])


def band_prep(g, obj, np):
    M = obj.A.shape[0]
    w = obj.bandwidth = g.r.randint(0, M - 1)
    i, j = np.indices((M, M))
    for X in ('A', 'O', 'W', 'P'):
        m = getattr(obj, X, None)
        if isinstance(m, np.ndarray):
            m[np.abs(i - j) > w] = 0.
    dominant(g, obj, np)


BANDED = [bscen('pipes only', {'O': 0, 'W': 0, 'P': 0}, ['A']), bscen('control: all', {'O': 'pos', 'W': 'pos', 'P': 'pos'}, ['A', 'O', 'W', 'P'])]
Contract('solve_heads_banded', 'C11', 'nsuperlink.nSuperLink.solve_banded_matrix', post_banded, scenarios=BANDED,
         params={'u': None, 'implicit': True})


def post_bandwidth(q):
    n = q.new
    w = n['bandwidth']
    q.each('bandwidth within the system', [], lambda: q.And(w >= 0, w < q.dim('J')))
    for nm, D, s in (('superlink', 'K', 'k'), ('orifice', 'O', 'o'), ('weir', 'W', 'w'), ('pump', 'P', 'p')):
        if nm == 'superlink' or D in q.dims:
            q.each('band covers every %s' % nm, [D], lambda k, s=s: q.abs(n['_J_u' + s][k] - n['_J_d' + s][k]) <= w)


Contract('bandwidth', 'C11', 'nsuperlink.nSuperLink._compute_bandwidth', post_bandwidth, prove=False, scenarios=[
    scen('pipes only', attrs={'bandwidth': Int()}, dims={'O': 0, 'W': 0, 'P': 0}), scen('all', attrs={'bandwidth': Int()}, dims={'O': 'pos', 'W': 'pos', 'P': 'pos'})],
    why='the adjacency matrix is built from data frames')
