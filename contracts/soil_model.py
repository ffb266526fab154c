"""Data model of GreenAmpt / nGreenAmpt."""
R, I, B = 'real', 'int', 'bool'
SCHEMA = {n: (R, ('N',)) for n in 'psi_f Ks theta_s theta_i A_s theta_d theta_du theta_dmax Lu kr Tr d F f T'.split()}
SCHEMA['is_saturated'] = (B, ('N',))
SCALARS = {'N': ('dim', 'N'), 'iter_count': (I,), 't': (R,)}
CONSTS = {}
FREE_BOOL = ()


def _e(nm, f):
    return ('elem', nm, f)


INVARIANT = [
    _e('psi_f', lambda q, a, i: a['psi_f'][i] > 0),
    _e('Ks', lambda q, a, i: a['Ks'][i] > 0),
    _e('A_s', lambda q, a, i: a['A_s'][i] >= 0),
    _e('Lu', lambda q, a, i: a['Lu'][i] > 0),
    _e('kr', lambda q, a, i: a['kr'][i] > 0),
    _e('Tr', lambda q, a, i: a['Tr'][i] > 0),
    _e('theta_dmax', lambda q, a, i: a['theta_dmax'][i] > 0),
    _e('theta_d', lambda q, a, i: q.And(a['theta_d'][i] > 0, a['theta_d'][i] <= a['theta_dmax'][i])),
    _e('theta_du', lambda q, a, i: q.And(a['theta_du'][i] >= 0, a['theta_du'][i] <= a['theta_dmax'][i])),
    _e('F', lambda q, a, i: a['F'][i] >= 0),
    _e('d', lambda q, a, i: a['d'][i] >= 0),
]


def make(g, cls, s, over, c):
    from models import np, pd
    r = g.r
    n = r.randint(1, 5)
    soils = [(3e-6, .11), (1e-5, .05), (6e-7, .3), (3.2e-5, .06), (1e-7, .25), (6e-5, .05)]
    ch = [r.choice(soils) for _ in range(n)]
    ths = [r.uniform(.35, .5) for _ in range(n)]
    p = pd.DataFrame(dict(psi_f=[x[1] for x in ch], Ks=[x[0] for x in ch], theta_s=ths,
                          theta_i=[t - r.choice([.02, .1, .25, .34]) for t in ths], A_s=[r.choice([1., 50., 1e4, 0.]) for _ in range(n)]))
    m = cls(p)
    for ev in range(r.randint(0, 3)):
        i = storm(g, m, np)
        dt = r.choice([1., 30., 60., 300.])
        for _ in range(r.choice([1, 3, 20])):
            m.step(dt, i)
            if r.random() < .6:
                m.d[:] = 0.
    return m


def storm(g, m, np):
    r = g.r
    u = r.random()
    if u < .25:
        return np.zeros(m.N)
    if u < .4:
        return m.Ks * r.uniform(.1, 1.)
    return m.Ks * np.array([r.choice([0., .5, 1., 1.5, 3., 10., 40.]) for _ in range(m.N)])
