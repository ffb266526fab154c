"""C03 surveyed transects and lookup tables: wetted part of a polyline, interpolation in a table."""
from .base import Contract, scen, Real, Int, Bool


def wet(q, i):
    """depths below the water level at both ends of segment i, its width and rise, and the wetted part of the segment"""
    w, x, y = q.arg('w'), q.arg('x'), q.arg('y')
    a, b = w - y[i], w - y[i + 1]
    dx, dy = x[i + 1] - x[i], y[i + 1] - y[i]
    part = q.ite(q.And(a >= 0, b >= 0), 1.0, q.ite(q.And(a < 0, b < 0), 0.0, q.div(q.max(a, b), q.abs(dy))))
    return a, b, dx, dy, part


def post_B(q):
    q.check('top width: wetted width of every segment', q.eq(q.ret, q.sum(q.dim('n') - 1, lambda i: wet(q, i)[2] * wet(q, i)[4])))


def post_Pe(q):
    def seg(i):
        a, b, dx, dy, part = wet(q, i)
        return q.ite(part > 0, q.sqrt((dx * part) * (dx * part) + (dy * part) * (dy * part)), 0.0)
    q.check('wetted perimeter: wetted length of every segment', q.eq(q.ret, q.sum(q.dim('n') - 1, seg)))


def post_A(q):
    def seg(i):
        a, b, dx, dy, part = wet(q, i)
        return dx * part * (q.max(a, 0.0) + q.max(b, 0.0)) / 2
    q.check('area: water column over the wetted part of every segment', q.eq(q.ret, q.sum(q.dim('n') - 1, seg)))


def gen_t(g, s, np):
    n = g.r.randint(2, 7)
    x = np.cumsum([g.r.choice([0., g.r.uniform(.1, 4)]) for _ in range(n)])
    y = np.array([g.r.choice([0., 1., g.r.uniform(0, 4)]) for _ in range(n)])
    y -= y.min()
    w = g.r.choice([0., float(y.max()), float(g.r.choice(list(y))), g.r.uniform(0, y.max() + 1)])
    return {'w': w, 'x': x, 'y': y}


ARGS = {'w': Real(), 'x': Real('n'), 'y': Real('n')}
ORD = [('elem', 'x', lambda q, a, i: q.Or(i == 0, a['x'][i - 1] <= a['x'][i]))]
for _n, _p in (('B', post_B), ('Pe', post_Pe), ('A', post_A)):
    Contract('transect_' + _n, 'C03', 'ngeometry.Transect_%s_ik' % _n, _p, params=ARGS, dims={'n': 'pos'}, gen=gen_t, facts=ORD)


def post_interp(q):
    x, xp, fp, m = q.arg('x'), q.arg('xp'), q.arg('fp'), q.arg('method')
    n = q.dim('n')
    hi = lambda *i: [0, n - 1] + [i[0] + d for d in (0, 1)] if i else [0, n - 1]
    q.check('at and below the table: first value', q.eq(q.ret, fp[0]), when=x <= xp[0])
    q.check('above the table: last value', q.eq(q.ret, fp[n - 1]), when=x > xp[n - 1])
    inside = lambda i: q.And(i + 1 < n, xp[i] < x, x <= xp[i + 1])
    if q.scenario == 'linear':
        q.each('between two points: on the straight line', ['n'], lambda i: q.eq(q.ret, fp[i] + q.div(x - xp[i], xp[i + 1] - xp[i]) * (fp[i + 1] - fp[i])),
               when=inside, hints=hi)
    else:
        q.each('between two points: value of the nearest', ['n'], lambda i: q.eq(q.ret, q.ite(x - xp[i] <= xp[i + 1] - x, fp[i], fp[i + 1])),
               when=inside, hints=hi)


def gen_i(g, s, np):
    n = g.r.randint(1, 7)
    xp = np.cumsum([g.r.uniform(.1, 4) for _ in range(n)]) - g.r.uniform(0, 4)
    fp = np.array([g.r.uniform(-4, 4) for _ in range(n)])
    x = g.r.choice([xp[0], xp[-1], g.r.choice(list(xp)), g.r.uniform(xp[0] - 1, xp[-1] + 1)])
    return {'x': float(x), 'xp': xp, 'fp': fp}


Contract('interpolate', 'C03', 'ngeometry.interpolate_geometry', post_interp, gen=gen_i, dims={'n': 'pos'},
         facts=[('pair', 'xp', lambda q, a, i, j: q.Or(i >= j, a['xp'][i] < a['xp'][j]))],
         scenarios=[scen('linear', {'x': Real(), 'xp': Real('n'), 'fp': Real('n'), 'method': 1}),
                    scen('nearest', {'x': Real(), 'xp': Real('n'), 'fp': Real('n'), 'method': 0})])
