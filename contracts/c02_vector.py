"""C02 vectorised cross-section functions: the same section for every element of the arrays."""
from .base import Contract, scen, Real, Int, Bool
from . import sections as S

CLS = [s for s in S.NARGS if s != 'Floodplain']


def gen(n, slot):
    def f(g, s, np):
        r = g.r
        m = r.randint(1, 6)
        a = {'h1': np.zeros(m), 'h2': np.zeros(m)}
        for i in range(n):
            a['g%d' % (i + 1)] = np.array([r.choice([r.uniform(.05, 5), abs(g.real()) or 1.0, .5, 1., 2.]) for _ in range(m)])
        for j in range(m):
            t = a['g1'][j]
            y = r.choice([0., t, t / 2, r.uniform(0, t), r.uniform(0, 2 * t), -r.uniform(0, 1), t * 1e-6])
            d = r.choice([0., r.uniform(-1, 1), y])
            a['h1'][j], a['h2'][j] = y + d, y - d
        if slot:
            a['kw_pslot'] = r.choice([.001, .01, r.uniform(0, .1)])
        return a
    return f


def declare(shape):
    n = S.NARGS[shape]
    names = ['g%d' % (i + 1) for i in range(n)]
    args = {'h1': Real('n'), 'h2': Real('n'), **{x: Real('n') for x in names}}
    at = lambda q, i: [q.arg(x)[i] for x in ['h1', 'h2'] + names]
    fact = [('elem', 'g1', lambda q, a, i: S.proper(q, shape, [a[x][i] for x in names]))]

    def frame(q, names_):
        for x in names_:
            q.each('arguments are left as they were', ['n'], lambda i, x=x: q.eq(q.newarg(x)[i], q.arg(x)[i]))

    def post(kindf, what):
        def f(q):
            def same(i):
                h1, h2, *g = at(q, i)
                return q.eq(q.ret[i], kindf(q, shape, h1, h2, g))
            q.each('%s of every element' % what, ['n'], same)
            frame(q, ['h1', 'h2'] + names)
        return f

    def post_R(q):
        q.each('hydraulic radius of every element', ['n'], lambda i: q.eq(q.ret[i], S.radius(q, q.arg('A')[i], q.arg('P')[i])))
        frame(q, ['A', 'P'])

    def mk(what, p, params, gn, facts, prop='C02'):
        Contract(('v%s_%s' if prop == 'C02' else '%s_%s') % (shape, what), prop, 'geometry.%s.%s_ik' % (shape, what), p, params=params, gen=gn, facts=facts, static=True, weight=.3)
    slot = shape in ('Circular', 'Rect_Closed')
    mk('A', post(S.area, 'area'), args, gen(n, False), fact)
    mk('Pe', post(S.perimeter, 'wetted perimeter'), args, gen(n, False), fact)
    mk('B', post(lambda q, sh, h1, h2, g: S.width(q, sh, h1, h2, g, q.arg('kw_pslot') if q.has('kw_pslot') else q.rat(1, 1000)), 'top width'),
       {**args, **({'kw_pslot': Real()} if slot else {})}, gen(n, slot), fact)
    if shape == 'Elliptical':
        mk('Pe', post(S.perimeter, 'wetted perimeter'), args, gen(n, False), fact, prop='C01')
    mk('R', post_R, {'A': Real('n'), 'P': Real('n')}, None, [])


for _s in CLS:
    declare(_s)
