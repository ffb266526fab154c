"""C01 cross-section of one link: area, wetted perimeter, hydraulic radius and top width of every shape."""
from .base import Contract, scen, Real, Int, Bool
from . import sections as S


def fact(shape, n, bare=False):
    return [('fact', lambda q, a: S.proper(q, shape, [a['g%d' % (i + 1)] for i in range(n)]))]


def gen(n):
    def f(g, s, np):
        r = g.r
        a = {'h1': 0.0, 'h2': 0.0}
        for i in range(n):
            a['g%d' % (i + 1)] = r.choice([r.uniform(.05, 5), abs(g.real()) or 1.0, r.choice([.5, 1., 2., 4.]), 0.0 if i and r.random() < .4 else 1.0])
        t = a['g1']
        y = r.choice([0., t, t / 2, r.uniform(0, t), r.uniform(0, 2 * t), -r.uniform(0, 1), t * 1e-6, a.get('g2', t), a.get('g2', t) + a.get('g3', t)])
        d = r.choice([0., r.uniform(-1, 1), y])
        a['h1'], a['h2'] = y + d, y - d
        return a
    return f


def declare(shape):
    n = S.NARGS[shape]
    names = ['g%d' % (i + 1) for i in range(n)]
    g = lambda q: [q.arg(x) for x in names]
    args = {'h1': Real(), 'h2': Real(), **{x: Real() for x in names}}
    H = lambda q: (q.arg('h1'), q.arg('h2'))

    def post_A(q):
        q.check('area formula', q.eq(q.ret, S.area(q, shape, *H(q), g(q))))
        q.check('area is not negative', q.le(0.0, q.ret)) if shape not in ('Circular', 'Elliptical') else None
        if shape not in ('Circular', 'Elliptical', 'Force_Main'):
            q.check('a dry section has no area', q.eq(q.ret, 0.0), when=(H(q)[0] + H(q)[1]) / 2 <= 0)

    def post_P(q):
        q.check('wetted perimeter formula', q.eq(q.ret, S.perimeter(q, shape, *H(q), g(q))))

    def post_B(q):
        slot = q.arg('slot') if q.has('slot') else None
        q.check('top width formula', q.eq(q.ret, S.width(q, shape, *H(q), g(q), slot)))

    def post_R(q):
        q.check('hydraulic radius is area over perimeter, 0 when dry', q.eq(q.ret, S.radius(q, q.arg('A'), q.arg('P'))))
    mk = lambda what, post, a, gn, facts: Contract('%s_%s' % (shape, what), 'C01', 'ngeometry.%s_%s_ik' % (shape, what), post, params=a, gen=gn,
                                                   facts=facts, weight=.3)
    mk('A', post_A, args, gen(n), fact(shape, n))
    if shape != 'Elliptical':
        mk('Pe', post_P, args, gen(n), fact(shape, n))
    mk('R', post_R, {'A': Real(), 'P': Real()}, None, [])
    if shape in ('Circular', 'Rect_Closed'):
        def gb(g_, s, np, base=gen(n)):
            return {**base(g_, s, np), 'slot': g_.r.choice([.001, .01, g_.r.uniform(0, .1)])}
        mk('B', post_B, {**args, 'slot': Real()}, gb, fact(shape, n))
    else:
        mk('B', post_B, args, gen(n), fact(shape, n))


for _s in S.NARGS:
    declare(_s)


def post_closed(q):
    q.check('an opening of zero height has no area', q.eq(q.ret, 0.0))


for _s in ('Circular', 'Elliptical', 'Parabolic'):
    _n = ['g%d' % (i + 1) for i in range(S.NARGS[_s])]
    Contract('%s_closed' % _s, 'C01', 'ngeometry.%s_A_ik' % _s, post_closed, params={'h1': Real(), 'h2': Real(), 'g1': 0.0, **{x: Real() for x in _n[1:]}},
             facts=[('fact', lambda q, a: q.And(*[a[x] > 0 for x in ('g2',) if x in _n]))] if len(_n) > 1 else [], noraise=True, weight=.2)
