"""C19 layout of the network at construction, and renumbering for the banded solver (bounded)."""
import copy
from .base import Contract, scen
from . import model as HM
from .c16_step import schema

GEO = ['g%d' % i for i in range(1, 8)]


def prep_net(g, obj, np):
    r = g.r
    sl, sj, kw = g.network(shapes=['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'wide', 'force_main', 'floodplain', 'parabolic'],
                           ends=r.random() < .5, tables=r.choice([False, 'any']), J=r.randint(2, 8), K=r.randint(1, 8))
    for c in ('in_offset', 'out_offset'):
        sl[c] = [r.choice([0., r.uniform(0, 1.5)]) for _ in range(len(sl))]
    for c in ('C_uk', 'C_dk'):
        sl[c] = [r.uniform(.3, .9) for _ in range(len(sl))]
    if r.random() < .5:                        # superlinks against the slope
        z = sj['z_inv'].values.copy()
        r.shuffle(z)
        sj['z_inv'] = z
    sl['friction_method'] = [r.choice(['cm', 'hw', 'dw']) for _ in range(len(sl))]
    for c in ('dx_uk', 'dx_dk'):                # one-sided ends
        if c in sl and r.random() < .5:
            sl[c] = [r.choice([0., x]) for x in sl[c]]
    if r.random() < .3:
        del sl['friction_method']
    mobile = r.random() < .25
    obj._net = (sl, sj, kw, dict(internal_links=r.randint(2 if mobile else 1, 6), mobile_elements=mobile, dt=r.choice([1., 20.])), r.random() < .4,
                [np.array([r.uniform(0, .2) for _ in range(len(sj))]) for _ in range(2)])


def gen_net(g, s, np, obj, args):
    return {}


def build(obj, a):
    import numpy as np
    sl, sj, kw, opts, permute, Q = obj._net
    given = copy.deepcopy((sl, sj, {k: v for k, v in kw.items()}))
    m = type(obj)(sl, sj, **kw, **opts, auto_permute=permute)
    same = given[0].equals(sl) and given[1].equals(sj) and all(given[2][k].equals(kw[k]) for k in ('orifices', 'weirs', 'pumps') if k in kw)
    res = dict(m=m, same=same, other=None)
    return res


def layout(q, m):
    """every statement about the layout that the contracts on methods assume"""
    from harness import rac
    sn = rac.snap(m, HM)
    a = rac.A(sn)
    q2 = rac.ConQ(lambda k: sn[k], lambda k: sn[k], {}, None, rac.dims_of(sn, HM))
    for f in HM.INVARIANT:
        nm = f[1] if len(f) > 2 else 'scalars'
        q.check('layout of %s' % nm, rac.fact_ok(f, q2, a) is not False)


def post_net(q):
    import numpy as np
    sl, sj, kw, opts, permute, Q = q.obj._net
    m = q.ret['m']
    q.check('the given tables are left as they were', q.ret['same'])
    per = np.asarray(m.permutations)
    q.check('renumbering is a permutation', sorted(per.tolist()) == list(range(len(sj))))
    inv = np.argsort(per)
    if not permute:
        q.check('numbering is kept', (inv == np.arange(len(sj))).all())
    layout(q, m)
    zj = sj['z_inv'].values
    dxu = sl['dx_uk'].values if 'dx_uk' in sl else np.zeros(len(sl))
    dxd = sl['dx_dk'].values if 'dx_dk' in sl else np.zeros(len(sl))
    n = opts['internal_links']
    for c, a in (('z_inv', '_z_inv_j'), ('a', '_storage_a'), ('b', '_storage_b'), ('c', '_storage_c'), ('max_depth', 'max_depth'), ('bc', 'bc')):
        q.check('superjunctions keep their %s' % c, np.array_equal(np.asarray(getattr(m, a))[inv], sj[c].values))
    for j in range(len(sj)):
        i = int(inv[j])
        tab = sj['storage'][j].lower() == 'tabular'
        q.check('superjunctions keep their kind of storage', bool(m._tabular[i]) == tab and bool(m._functional[i]) != tab and (i in np.asarray(m._storage_js)) == tab)
        if tab:
            t = kw['storages'][sj['table'][j]]
            c = int(np.asarray(m._storage_codes)[list(m._storage_js).index(i)])
            at = slice(int(m._storage_inds[c]), int(m._storage_inds[c] + m._storage_lens[c]))
            q.check('superjunctions keep their table', np.array_equal(m._storage_hs[at], t['h']) and np.array_equal(m._storage_As[at], t['A']))
    q.check('time and step count start at zero', m.t == 0 and m.iter_count == 0)
    near = [(m._J_uk, m._J_dk)]
    for t, up, dn, cols in (('orifices', '_J_uo', '_J_do', (('A', '_Ao_max'), ('z_o', '_z_o'), ('y_max', '_y_max_o'), ('C', '_Co'), ('g1', '_g1_o'), ('oneway', '_unidir_o'))),
                            ('weirs', '_J_uw', '_J_dw', (('z_w', '_z_w'), ('y_max', '_y_max_w'), ('Cr', '_Cwr'), ('Ct', '_Cwt'), ('L', '_L_w'), ('s', '_s_w'))),
                            ('pumps', '_J_up', '_J_dp', (('z_p', '_z_p'), ('a_p', '_a_p'), ('b_p', '_b_p'), ('c_p', '_c_p'), ('dH_min', '_dHp_min'), ('dH_max', '_dHp_max')))):
        if t in kw:
            q.check('%s join their superjunctions' % t, np.array_equal(getattr(m, up), inv[kw[t]['sj_0'].values]) and np.array_equal(getattr(m, dn), inv[kw[t]['sj_1'].values]))
            for c, a in cols:
                q.check('%s keep their %s' % (t, c), np.array_equal(getattr(m, a), kw[t][c].values))
            near.append((getattr(m, up), getattr(m, dn)))
    q.check('the band covers every connection', all((np.abs(np.asarray(a) - np.asarray(b)) <= m.bandwidth).all() for a, b in near))
    for k in range(len(sl)):
        e = [(int(inv[sl['sj_0'][k]]), zj[sl['sj_0'][k]] + sl['in_offset'][k], dxu[k], sl['C_uk'][k]),
             (int(inv[sl['sj_1'][k]]), zj[sl['sj_1'][k]] + sl['out_offset'][k], dxd[k], sl['C_dk'][k])]
        if e[0][1] < e[1][1]:
            e = e[::-1]
        (ju, zu, lu, cu), (jd, zd, ld, cd) = e
        q.check('superlinks join their superjunctions, from the higher end to the lower', m._J_uk[k] == ju and m._J_dk[k] == jd)
        q.check('ends are at their own offsets above their own superjunctions', np.isclose(m._z_inv_uk[k], zu) and np.isclose(m._z_inv_dk[k], zd))
        q.check('end lengths and coefficients stay with their ends', np.isclose(m._dx_uk[k], lu) and np.isclose(m._dx_dk[k], ld)
                and np.isclose(m._C_uk[k], cu) and np.isclose(m._C_dk[k], cd))
        L, I = np.flatnonzero(m._ki == k), np.flatnonzero(m._kI == k)
        q.check('number of links', len(L) == n and len(I) == n + 1)
        x, dx = m._x_Ik[I], m._dx_ik[L]
        q.check('lengths add up', np.isclose(dx.sum(), sl['dx'][k]) and np.isclose(x[0], lu) and np.allclose(np.diff(x), dx))
        home = None
        if opts['mobile_elements']:
            home = int(m._elem_pos[k])
            q.check('the movable junction starts at home', np.isclose(x[home], lu + m._xc[k]) and 0 < home < n and not m._fixed[k][home] and m._fixed[k].sum() == n)
        rest = x if home is None else np.delete(x, home)
        q.check('junctions are evenly spaced', np.allclose(rest, lu + np.linspace(0, sl['dx'][k], len(rest))))
        tot = lu + sl['dx'][k] + ld
        q.check('inverts are on the line between the ends', np.allclose(m._z_inv_Ik[I], zu + (zd - zu) * x / tot))
        q.check('bed slopes are those of the line', np.allclose(m._S_o_ik[L], (zu - zd) / tot) and all(
            np.isclose(s, (zu - zd) / tot if l > 0 else 0.) for s, l in ((m._S_o_uk[k], lu), (m._S_o_dk[k], ld))))
        for c, a in (('A_c', '_A_c_ik'), ('C', '_C_ik'), ('ctrl', '_ctrl'), ('n', '_n_ik')):
            q.check('links have the %s of their superlink' % c, (np.asarray(getattr(m, a))[L] == sl[c][k]).all())
        for c in GEO:
            if c in sl and sl['shape'][k] not in ('force_main', 'circular', 'rect_closed', 'parabolic'):
                q.check('links have the sizes of their superlink', (getattr(m, '_%s_ik' % c)[L] == sl[c][k]).all())
        q.check('links have the shape of their superlink', (m._shape_ik[L] == sl['shape'][k]).all())
        f = sl['friction_method'][k] if 'friction_method' in sl else 'cm'
        q.check('links have the friction method of their superlink', (m._Sf_method_ik[L] == {'cm': 0, 'hw': 1, 'dw': 2}[f]).all()
                and m._Sf_method_uk[k] == m._Sf_method_dk[k] == {'cm': 0, 'hw': 1, 'dw': 2}[f])
        q.check('junctions have the surface area of their superlink', (m._A_SIk[I] == sl['A_s'][k]).all())


Contract('construction', 'C19', 'nsuperlink.nSuperLink.__init__', post_net, schema=schema(False), prove=False, group='natural', gen=gen_net, call=build, noraise='bug',
         why='tables are laid out with data frames: checked on random networks', scenarios=[scen('tables', prepare=prep_net)])


# ------------------------------------------------------------------ renumbering changes nothing but numbers
def both(obj, a):
    import numpy as np
    sl, sj, kw, opts, permute, Q = obj._net
    m0 = type(obj)(sl, sj, **kw, **opts, auto_permute=False)
    m1 = type(obj)(sl, sj, **kw, **opts, auto_permute=True)
    per = np.asarray(m1.permutations)
    Hb = np.copy(m0.H_j)
    for q in Q:
        for m, p in ((m0, np.arange(len(per))), (m1, per)):
            m.step(dt=.5, Q_in=q[p], H_bc=Hb[p])
    return dict(a=m0, b=m1)


def post_both(q):
    import numpy as np
    m0, m1 = q.ret['a'], q.ret['b']
    inv = np.argsort(np.asarray(m1.permutations))
    q.check('band solver is used', m1.banded and not m0.banded)
    for a in ('H_j', '_A_sj'):
        x, y = getattr(m0, a), getattr(m1, a)[inv]
        if np.isfinite(x).all() and np.abs(x).max() < 1e4:
            q.check('%s does not depend on the numbering' % a, np.allclose(x, y, rtol=1e-5, atol=1e-5))
    for a in ('_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk', '_Qo', '_Qw', '_Qp'):
        x, y = getattr(m0, a), getattr(m1, a)
        if x.size and np.isfinite(x).all() and np.abs(x).max() < 1e4:
            q.check('%s does not depend on the numbering' % a, np.allclose(x, y, rtol=1e-4, atol=1e-4))


Contract('renumbering', 'C19', 'nsuperlink.nSuperLink.__init__', post_both, schema=schema(False), prove=False, group='natural', gen=gen_net, call=both, noraise='bug',
         why='compares runs of two models', scenarios=[scen('tables', prepare=prep_net)])
