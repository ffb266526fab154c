"""C04 the section of every link, superlink end and orifice is that of its own shape, size and depth."""
from .base import Contract, scen, Real, Int, Bool
from . import sections as S

GS = ['_g%d_ik' % i for i in range(1, 8)]


def values(q, shape, i, h1, h2):
    g = [q.old[x][i] for x in GS]
    slot = {'Circular': g[1], 'Rect_Closed': g[2]}.get(shape)
    return [lambda: S.area(q, shape, h1, h2, g), lambda: S.perimeter(q, shape, h1, h2, g), None, lambda: S.width(q, shape, h1, h2, g, slot)]




def lookups(q, out, rng, link, h, irr):
    """linear interpolation in the transect table of the link"""
    o, n = q.old, q.new
    zs = o['_transect_zs']
    code = lambda i: o['_transect_codes'][link(i)]
    first = lambda i: o['_transect_inds'][code(i)]
    last = lambda i: first(i) + o['_transect_lens'][code(i)] - 1
    hi = lambda i, *a: [i, link(i), first(i), last(i)] + [x + d for x in a for d in (0, 1)]
    for X, T in zip(out, ('_transect_As', '_transect_Bs', '_transect_Pes', '_transect_Rs')):
        def lerp(i, p, X=X, T=T):
            f = q.div(h(i) - zs[p], zs[p + 1] - zs[p])
            return q.eq(n[X][i], o[T][p] + f * (o[T][p + 1] - o[T][p]))
        q.each('irregular section: linear in the table of its own transect %s' % T, [rng, 'T'], lerp,
               when=lambda i, p: q.And(irr(i), first(i) <= p, p < last(i), zs[p] < h(i), h(i) <= zs[p + 1]), hints=hi)
        q.each('irregular section: bottom of the table %s' % T, [rng], lambda i, X=X, T=T: q.eq(n[X][i], o[T][first(i)]),
               when=lambda i: q.And(irr(i), h(i) <= zs[first(i)]), hints=hi)
        q.each('irregular section: top of the table %s' % T, [rng], lambda i, X=X, T=T: q.eq(n[X][i], o[T][last(i)]),
               when=lambda i: q.And(irr(i), h(i) > zs[last(i)]), hints=hi)


def post(out, rng, link, ends, extra=lambda q, i: []):
    """out: names of area, perimeter, radius, width; ends(q, i): depths at both ends"""
    def f(q):
        o, n = q.old, q.new
        if q.scenario != 'regular':
            lookups(q, [out[0], out[3], out[1], out[2]], rng, lambda i: link(q, i), lambda i: (ends(q, i)[0] + ends(q, i)[1]) / 2,
                           lambda i: o['_is_irregular'][link(q, i)])
        for code, shape in S.SHAPES.items():
            for j, what in enumerate(('area', 'perimeter', 'radius', 'top width')):
                def same(i, j=j, shape=shape):
                    if j == 2:
                        return q.eq(n[out[2]][i], S.radius(q, n[out[0]][i], n[out[1]][i]))
                    return q.eq(n[out[j]][i], values(q, shape, link(q, i), *ends(q, i))[j]())
                q.each('%s %s' % (shape, what), [rng], same, when=lambda i, code=code: q.same(o['_geom_codes'][link(q, i)], code),
                       hints=lambda i: [i, link(q, i)] + extra(q, i))
    return f


def proper(q, a, i):
    return q.And(*[q.Or(q.Not(q.same(a['_geom_codes'][i], c)), S.proper(q, s, [a[x][i] for x in GS])) for c, s in S.SHAPES.items()])


REG = [('elem', '_geom_codes', lambda q, a, i: q.And(a['_geom_codes'][i] >= 0, a['_geom_codes'][i] <= 10)),
       ('elem', '_geom_codes', proper)]
ELL = REG + [('elem', '_ellipse_ix', lambda q, a, e: q.And(a['_ellipse_ix'][e] >= 0, a['_ellipse_ix'][e] < q.dim('L'), q.same(a['_geom_codes'][a['_ellipse_ix'][e]], 7))),
             ('pair', '_ellipse_ix', lambda q, a, e, f: q.Not(q.same(a['_ellipse_ix'][e], a['_ellipse_ix'][f]))),
             ('elem', '_g_epos', lambda q, a, i: q.Or(q.Not(q.same(a['_geom_codes'][i], 7)),
                                                      q.And(a['_g_epos'][i] >= 0, a['_g_epos'][i] < q.dim('E'), q.same(a['_ellipse_ix'][a['_g_epos'][i]], i))))]


def inc(X):
    return ('pair', X, lambda q, a, i, j: q.Or(q.Not(q.And(i < j, q.same(a['_g_tab'][i], a['_g_tab'][j]))), a[X][i] < a[X][j]))


IRR = [('elem', '_transect_codes', lambda q, a, i: q.And(a['_transect_codes'][i] >= 0, a['_transect_codes'][i] < q.dim('TC'))),
       ('elem', '_is_irregular', lambda q, a, i: q.Or(q.Not(a['_is_irregular'][i]), q.same(a['_geom_codes'][i], 0))),
       ('elem', '_transect_inds', lambda q, a, c: q.And(a['_transect_inds'][c] >= 0, a['_transect_lens'][c] >= 1,
                                                        a['_transect_inds'][c] + a['_transect_lens'][c] <= q.dim('T'))),
       ('elem', '_g_tab', lambda q, a, p: q.And(a['_g_tab'][p] >= 0, a['_g_tab'][p] < q.dim('TC'), a['_transect_inds'][a['_g_tab'][p]] <= p,
                                                p < a['_transect_inds'][a['_g_tab'][p]] + a['_transect_lens'][a['_g_tab'][p]])),
       ('pair', '_transect_inds', lambda q, a, c, d: q.Or(a['_transect_inds'][c] + a['_transect_lens'][c] <= a['_transect_inds'][d],
                                                          a['_transect_inds'][d] + a['_transect_lens'][d] <= a['_transect_inds'][c])),
       inc('_transect_zs')]


def prep(g, obj, np):
    r = g.r
    codes = np.asarray(obj._geom_codes)
    obj._g_epos = np.array([list(obj._ellipse_ix).index(i) if i in obj._ellipse_ix else 0 for i in range(len(codes))], dtype=int)
    for x in GS:
        a = getattr(obj, x)
        setattr(obj, x, np.array([r.choice([r.uniform(.1, 4), abs(g.real()) or 1.]) for _ in a]))
    if getattr(obj, '_transect_lens', None) is not None and len(obj._transect_lens):
        obj._g_tab = np.repeat(np.arange(len(obj._transect_lens)), np.asarray(obj._transect_lens, dtype=int))
    top = np.array([r.choice([0., r.uniform(0, t), 1.2 * t, t]) for t in obj._g1_ik])
    obj._h_Ik = np.array([r.choice([0., -.1, r.uniform(0, 4), top[r.randrange(len(top))]]) for _ in obj._h_Ik])
    obj.H_j = obj._z_inv_j + np.array([r.choice([0., -.1, r.uniform(0, 6)]) for _ in obj.H_j])


SHAPES = ['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'parabolic', 'elliptical', 'wide', 'force_main', 'floodplain']


def scs(flag):
    none = {'T': 0, 'TC': 0}
    return [scen('regular', attrs={flag: False, '_g_epos': Int('L')}, dims=none, facts=ELL, prepare=prep, model={'shapes': SHAPES}),
            scen('mixed', attrs={flag: True, '_g_tab': Int('T'), '_g_epos': Int('L')}, dims={'TC': 'pos', 'T': 'pos'}, facts=IRR + ELL, prepare=prep,
                 model={'shapes': SHAPES + ['irregular']}, keep=('_transect_zs',), pair_limit=24)]


Contract('link_geometry', 'C04', 'nsuperlink.nSuperLink.link_hydraulic_geometry',
         post(['_A_ik', '_Pe_ik', '_R_ik', '_B_ik'], 'L', lambda q, i: i, lambda q, i: (q.old['_h_Ik'][q.old['_Ik'][i]], q.old['_h_Ik'][q.old['_Ip1k'][i]]),
              lambda q, i: [q.old['_ki'][i]] + [q.old['_g_epos'][i]]), scenarios=scs('_has_irregular'), weight=2)
for _e, _i, _I, _fn in (('u', '_i_1k', '_I_1k', 'upstream'), ('d', '_i_nk', '_I_Np1k', 'downstream')):
    def _ends(q, k, e=_e, I=_I):
        o = q.old
        return o['_h_Ik'][o[I][k]], o['_theta_%sk' % e][k] * (o['H_j'][o['_J_%sk' % e][k]] - o['_z_inv_%sk' % e][k])
    Contract(_fn + '_geometry', 'C04', 'nsuperlink.nSuperLink.%s_hydraulic_geometry' % _fn,
             post(['_A_%sk' % _e, '_Pe_%sk' % _e, '_R_%sk' % _e, '_B_%sk' % _e], 'K', lambda q, k, i=_i: q.old[i][k], _ends),
             scenarios=scs('_%sk_has_irregular' % _e), weight=2)


def prep_o(g, obj, np):
    for x in ('_g1_o', '_g2_o', '_g3_o'):
        setattr(obj, x, np.array([g.r.uniform(.1, 3) for _ in getattr(obj, x)]))
    obj._geom_codes_o = np.array([g.r.randint(1, 9) for _ in obj._geom_codes_o])
    obj.H_j = obj._z_inv_j + np.array([g.r.choice([0., -.1, g.r.uniform(0, 4)]) for _ in obj.H_j])


def post_orifice(q):
    o, n = q.old, q.new
    for code, shape in S.SHAPES.items():
        if shape == 'Floodplain':
            continue

        def same(i, shape=shape):
            z = o['_z_inv_j'][o['_J_uo'][i]] + o['_z_o'][i]
            h = q.max(o['H_j'][o['_J_uo'][i]], o['H_j'][o['_J_do'][i]]) - z
            u = q.arg('u')[i] if q.has('u') else q.real(0.0)
            g = [o['_g1_o'][i] * u, o['_g2_o'][i], o['_g3_o'][i]]
            if shape in ('Circular', 'Elliptical', 'Parabolic'):
                return q.eq(n['_Ao'][i], q.lazy(g[0] > 0, lambda: S.area(q, shape, h, h, g), lambda: q.real(0.0)))
            return q.eq(n['_Ao'][i], S.area(q, shape, h, h, g))
        q.each('%s opening' % shape, ['O'], same, when=lambda i, code=code: q.same(o['_geom_codes_o'][i], code))


ORI = [('elem', '_geom_codes_o', lambda q, a, i: q.And(a['_geom_codes_o'][i] >= 1, a['_geom_codes_o'][i] <= 9)),
       ('elem', '_g1_o', lambda q, a, i: q.And(a['_g1_o'][i] > 0, a['_g2_o'][i] > 0, a['_g3_o'][i] >= 0))]
Contract('orifice_geometry', 'C04', 'nsuperlink.nSuperLink.orifice_hydraulic_geometry', post_orifice, facts=ORI,
         scenarios=[scen('no signal', {'u': None}, dims={'O': 'pos'}, prepare=prep_o),
                    scen('signal', {'u': Real('O')}, dims={'O': 'pos'}, prepare=prep_o)])


def post_configure(q):
    """shape codes, default slots and transect tables as laid out at construction (bounded)"""
    n, m = q.new, q.obj
    sl = m.superlinks
    low = [str(x).lower() for x in sl['shape'].values]
    pos = {idx: k for k, idx in enumerate(sl.index)}
    sup = [pos[x] for x in m.links['k'].values] if 'k' in m.links else [int(k) for k in m._ki]
    code = {v.lower(): k for k, v in S.SHAPES.items()}
    q.each('shape of every link is the shape of its superlink', ['L'], lambda i: q.same(n['_geom_codes'][i], code.get(low[sup[i]], 0)))
    q.each('sizes of every link are those of its superlink', ['L'], lambda i: all(
        float(getattr(m, GS[j])[i]) == slot(low[sup[i]], j + 1, float(sl['g%d' % (j + 1)].values[sup[i]])) for j in range(7)))
    irr = [low[sup[i]] == 'irregular' for i in range(len(sup))]
    q.each('irregular links', ['L'], lambda i: q.Iff(n['_is_irregular'][i], irr[i]))
    q.each('an irregular link anywhere is noticed', ['L'], lambda i: q.Or(not irr[i], bool(m._has_irregular)))
    for e, ends in (('uk', m._i_1k), ('dk', m._i_nk)):
        q.each('an irregular link at the %s end is noticed' % e, ['K'], lambda k, e=e, ends=ends: q.Or(not irr[int(ends[k])], bool(getattr(m, '_%s_has_irregular' % e))))
    ell = [i for i in range(len(sup)) if low[sup[i]] == 'elliptical']
    q.check('elliptical links', [int(x) for x in m._ellipse_ix] == ell)
    if getattr(m, '_shape_o', None) is not None and len(m._shape_o):
        q.each('shape of every orifice', ['O'], lambda i: q.same(n['_geom_codes_o'][i], code.get(str(m._shape_o[i]).lower(), 0)))
    if not any(irr):
        return

    def table(i):
        if not irr[i]:
            return True
        t = m.transects[str(sl['transect'].values[sup[i]])]
        c = int(m._transect_codes[i])
        a, l = int(m._transect_inds[c]), int(m._transect_lens[c])
        x, y = [float(v) for v in t['x']], [float(v) for v in t['y']]
        if l != t['sample_points']:
            return False
        for j in range(l):
            z = max(y) * j / (l - 1)
            A, B, P = section(x, y, z)
            for X, v in (('zs', z), ('As', A), ('Bs', B), ('Pes', P), ('Rs', A / P if P else 0.0)):
                if abs(float(getattr(m, '_transect_' + X)[a + j]) - v) > 1e-7 * (1 + abs(v)):
                    return False
        return True
    q.each('table of every irregular link is sampled from its own transect', ['L'], table)


def slot(shape, j, v):
    return 0.001 if v == 0 and (shape, j) in (('circular', 2), ('rect_closed', 3), ('force_main', 2)) else v


def section(x, y, z):
    """wetted area, top width and wetted perimeter of a polyline transect filled to depth z"""
    A = B = P = 0.0
    for (x0, y0), (x1, y1) in zip(zip(x, y), zip(x[1:], y[1:])):
        a, b = z - y0, z - y1
        if a < 0 and b < 0:
            continue
        w, s = x1 - x0, (y1 - y0)
        f = 1.0 if a >= 0 and b >= 0 else max(a, b) / abs(s)
        A += f * w * (max(a, 0) + max(b, 0)) / 2
        B += f * w
        P += f * (w * w + s * s) ** .5
    return A, B, P


Contract('configured_sections', 'C04', 'nsuperlink.nSuperLink.configure_hydraulic_geometry', post_configure, prove=False, group='natural',
         scenarios=[scen('regular', model={'shapes': SHAPES, 'zero': True}), scen('mixed', model={'shapes': SHAPES + ['irregular'], 'zero': True}),
                    scen('irregular', model={'shapes': ['irregular']})], weight=3,
         why='sections are configured with data frames')
