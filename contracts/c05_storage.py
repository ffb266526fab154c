"""C05 superjunction storage: surface area and stored volume from functional and tabular curves."""
from .base import Contract, scen, Real, Int, Bool


def depth(q, j):
    o = q.old
    return q.max(o['H_j'][j] - o['_z_inv_j'][j], o['min_depth'])


def post_storage(area):
    def post(q):
        o, n = q.old, q.new
        out = '_A_sj' if area else '_V_sj'
        tabular = q.scenario == 'tabular'

        def functional(j):
            h, a, b, c = depth(q, j), o['_storage_a'][j], o['_storage_b'][j], o['_storage_c'][j]
            if area:
                return q.eq(n[out][j], a * q.pow(h, b) + c)
            return q.eq(n[out][j], q.div(a * q.pow(h, b + 1), b + 1) + c * h)
        q.each('functional curve', ['J'], functional, when=lambda j: q.And(o['_functional'][j], q.Not(q.same(o['_storage_b'][j], -1.0)) if not area else True))
        if tabular:
            js, hs, As, Vs = o['_storage_js'], o['_storage_hs'], o['_storage_As'], o['_storage_Vs']
            ys = As if area else Vs
            first = lambda i: o['_storage_inds'][o['_storage_codes'][i]]
            last = lambda i: first(i) + o['_storage_lens'][o['_storage_codes'][i]] - 1

            def segment(i, p):
                x = depth(q, js[i])
                return q.And(first(i) <= p, p < last(i), hs[p] < x, x <= hs[p + 1])

            def lerp(i, p):
                x = depth(q, js[i])
                f = q.div(x - hs[p], hs[p + 1] - hs[p])
                return q.eq(n[out][js[i]], ys[p] + f * (ys[p + 1] - ys[p]))
            hi = lambda i, *a: [i, js[i], first(i), last(i)] + [x + d for x in a for d in (0, 1)]
            q.each('tabular curve: linear between the points of the table', ['S', 'H'], lerp, when=segment, hints=hi)
            q.each('tabular curve: first value at and below the table', ['S'], lambda i: q.eq(n[out][js[i]], ys[first(i)]),
                   when=lambda i: depth(q, js[i]) <= hs[first(i)], hints=hi)

            def above(i):
                x, l = depth(q, js[i]), last(i)
                return q.eq(n[out][js[i]], As[l] if area else Vs[l] + As[l] * (x - hs[l]))
            q.each('tabular curve: constant area above the table', ['S'], above, when=lambda i: depth(q, js[i]) > hs[last(i)], hints=hi)
        q.each('unused otherwise', ['J'], lambda j: q.eq(n[out][j], o[out][j]),
               when=lambda j: q.And(q.Not(o['_functional'][j]), q.Not(o['_tabular'][j])), hints=lambda j: [])
    return post


def inc(X, strict):
    """values of a table do not decrease (ghost array names the table of every point)"""
    return ('pair', X, lambda q, a, i, j: q.Or(q.Not(q.And(i < j, q.same(a['_g_tab'][i], a['_g_tab'][j]))),
                                               (a[X][i] < a[X][j]) if strict else (a[X][i] <= a[X][j])))


TABLES = [
    ('elem', '_storage_js', lambda q, a, i: q.And(a['_storage_js'][i] >= 0, a['_storage_js'][i] < q.dim('J'), a['_tabular'][a['_storage_js'][i]])),
    ('pair', '_storage_js', lambda q, a, i, j: q.Not(q.same(a['_storage_js'][i], a['_storage_js'][j]))),
    ('elem', '_storage_codes', lambda q, a, i: q.And(a['_storage_codes'][i] >= 0, a['_storage_codes'][i] < q.dim('C'))),
    ('elem', '_storage_inds', lambda q, a, c: q.And(a['_storage_inds'][c] >= 0, a['_storage_lens'][c] >= 2,
                                                    a['_storage_inds'][c] + a['_storage_lens'][c] <= q.dim('H'))),
    ('pair', '_storage_inds', lambda q, a, c, d: q.Or(a['_storage_inds'][c] + a['_storage_lens'][c] <= a['_storage_inds'][d],
                                                      a['_storage_inds'][d] + a['_storage_lens'][d] <= a['_storage_inds'][c])),
    ('elem', '_g_tab', lambda q, a, p: q.And(a['_g_tab'][p] >= 0, a['_g_tab'][p] < q.dim('C'), a['_storage_inds'][a['_g_tab'][p]] <= p,
                                             p < a['_storage_inds'][a['_g_tab'][p]] + a['_storage_lens'][a['_g_tab'][p]])),
    inc('_storage_hs', True), inc('_storage_As', False), inc('_storage_Vs', False),
    ('elem', '_functional', lambda q, a, j: q.Iff(a['_functional'][j], q.Not(a['_tabular'][j]))),
]


def prepare(g, obj, np):
    lens = np.asarray(obj._storage_lens, dtype=int)
    obj._g_tab = np.repeat(np.arange(len(lens)), lens)
    obj.H_j = obj._z_inv_j + np.array([g.r.choice([0., -.1, g.r.uniform(0, 12)]) for _ in obj.H_j])
    if g.r.random() < .5 and len(obj._storage_js):
        for j, c in zip(obj._storage_js, obj._storage_codes):
            obj.H_j[j] = obj._z_inv_j[j] + obj._storage_hs[obj._storage_inds[c] + g.r.randint(0, lens[c] - 1)]
    obj._storage_a, obj._storage_b, obj._storage_c = (np.array([g.r.choice([0., g.r.uniform(0, 4)]) for _ in obj.H_j]) for _ in range(3))


SC = [scen('functional', dims={'S': 0, 'H': 0, 'C': 0}, facts=[('elem', '_tabular', lambda q, a, j: q.Not(a['_tabular'][j])),
                                                               ('elem', '_functional', lambda q, a, j: a['_functional'][j])]),
      scen('tabular', attrs={'_g_tab': Int('H')}, facts=TABLES, model={'tables': True}, pair_limit=24, prepare=prepare,
           keep=('_storage_hs', '_storage_As', '_storage_Vs'))]
Contract('storage_areas', 'C05', 'nsuperlink.nSuperLink.compute_storage_areas', post_storage(True), scenarios=SC)
Contract('storage_volumes', 'C05', 'nsuperlink.nSuperLink.compute_storage_volumes', post_storage(False), scenarios=SC)


def post_tables(q):
    """the tables as laid out at construction (bounded)"""
    n = q.new
    m = q.obj
    names = [str(x) for x in m.superjunctions['table'].values] if 'table' in m.superjunctions else []
    typ = [str(x).lower() for x in m.superjunctions['storage'].values]
    q.each('superjunction kinds', ['J'], lambda j: q.And(q.Iff(n['_tabular'][j], typ[j] == 'tabular'), q.Iff(n['_functional'][j], typ[j] == 'functional')))
    if not m.storages:
        return
    js = [int(x) for x in m._storage_js]
    q.each('every tabular superjunction has a table, and no other', ['J'], lambda j: q.Iff(typ[j] == 'tabular', j in js))

    def table(i):
        t = m.storages[names[js[i]]]
        c = int(m._storage_codes[i])
        a, l = int(m._storage_inds[c]), int(m._storage_lens[c])
        h, A = [float(x) for x in t['h']], [float(x) for x in t['A']]
        V = [0.0]
        for k in range(1, len(h)):
            V.append(V[-1] + (A[k] + A[k - 1]) / 2 * (h[k] - h[k - 1]))
        if l != len(h):
            return False
        for X, y in (('_storage_hs', h), ('_storage_As', A), ('_storage_Vs', V)):
            z = [float(v) for v in getattr(m, X)[a:a + l]]
            if len(z) != l or any(abs(u - v) > 1e-9 * (1 + abs(v)) for u, v in zip(z, y)):
                return False
        return True
    q.each('table of every tabular superjunction: depths, areas and the integral of area over depth', ['S'], table)


Contract('storage_tables', 'C05', 'nsuperlink.nSuperLink.configure_storages', post_tables, prove=False, group='natural',
         scenarios=[scen('tables', model={'tables': 'any'}), scen('functional')], why='tables are built with data frames')
