"""C18 repositioning of movable junctions: `place` is proved for every superlink and position, `moves` evaluates the same statements on real models."""
import copy
from .base import Contract, scen
from .c16_step import schema


def prep_moves(g, obj, np):
    r = g.r
    for _ in range(r.choice([0, 1, 3])):            # moves before the one examined
        state(g, obj, np)
        obj.reposition_junctions(np.array([r.random() < .7 for _ in range(obj.NK)]))
    state(g, obj, np)


def state(g, obj, np):
    r = g.r
    obj.H_j = obj._z_inv_j + np.array([r.choice([0., r.uniform(0, 5), r.uniform(0, 1)]) for _ in obj.H_j])
    for k in range(obj.NK):
        if r.random() < .5 and (obj._J_dk == obj._J_dk[k]).sum() == 1:
            lo, hi = obj._z_inv_Ik[obj._I_Np1k[k]], obj._z_inv_Ik[obj._I_1k[k]]
            obj.H_j[obj._J_dk[k]] = r.choice([lo, hi, lo + r.random() * (hi - lo), lo - .1, hi + .1])
    obj._Q_ik = np.array([r.uniform(-1, 1) for _ in obj._Q_ik])
    obj._h_Ik = np.array([r.uniform(.01, 1) for _ in obj._h_Ik])


def gen_moves(g, s, np, obj, args):
    return dict(reposition=np.array([g.r.random() < .7 for _ in range(obj.NK)]) if g.r.random() < .8 else None)


KEEP = '_x_Ik _z_inv_Ik _h_Ik _dx_ik _Q_ik _elem_pos H_j'.split()


def run_moves(obj, a):
    pre = {k: copy.deepcopy(getattr(obj, k)) for k in KEEP}
    obj.reposition_junctions(**a)
    return dict(pre=pre, mask=None if a['reposition'] is None else a['reposition'].tolist())


def post_moves(q):
    import numpy as np
    o, r = q.obj, q.ret
    p = r['pre']
    q.check('heads are unchanged', np.array_equal(p['H_j'], o.H_j))
    for k in range(o.NK):
        a, b, c, d = o._I_1k[k], o._I_Np1k[k] + 1, o._i_1k[k], o._i_nk[k] + 1
        x0, z0, h0, dx0, Q0, pos0 = p['_x_Ik'][a:b], p['_z_inv_Ik'][a:b], p['_h_Ik'][a:b], p['_dx_ik'][c:d], p['_Q_ik'][c:d], p['_elem_pos'][k]
        x1, z1, h1, dx1, Q1, pos1 = o._x_Ik[a:b], o._z_inv_Ik[a:b], o._h_Ik[a:b], o._dx_ik[c:d], o._Q_ik[c:d], o._elem_pos[k]
        if r['mask'] is not None and not r['mask'][k]:
            q.check('superlinks not asked for are left alone', all(np.array_equal(u, v) for u, v in ((x0, x1), (z0, z1), (h0, h1), (dx0, dx1), (Q0, Q1), (pos0, pos1))))
            continue
        Hd = p['H_j'][o._J_dk[k]]
        inside = z0[-1] < Hd < z0[0]
        want = x0[0] + ((Hd - o._b0[k]) / o._m[k] if inside else o._xc[k])
        if np.abs(np.delete(x0, pos0) - want).min() < 1e-9 * (1 + abs(want)):
            continue                       # on top of another junction: either order
        q.check('the movable junction goes where the downstream head meets the bed, or home', np.isclose(x1[pos1], want))
        q.check('the other junctions stay', np.allclose(np.delete(x1, pos1), np.delete(x0, pos0)) and np.allclose(np.delete(z1, pos1), np.delete(z0, pos0))
                and np.allclose(np.delete(h1, pos1), np.delete(h0, pos0)))
        q.check('junctions are in order', bool((np.diff(x1) > 0).all()))
        q.check('links join neighbouring junctions', np.allclose(np.diff(x1), dx1))
        q.check('the length of the superlink is unchanged', np.isclose(dx1.sum(), dx0.sum()))
        q.check('inverts are on the bed', np.allclose(z1, o._b0[k] + o._m[k] * (x1 - x1[0])))
        q.check('depth at the moved junction is that of the profile there', np.isclose(h1[pos1], np.interp(want, x0, h0)))
        e = list(Q0)
        if pos0 != pos1:
            u, v = pos0 - 1, pos0
            e[u] = (Q0[u] * dx0[v] + Q0[v] * dx0[u]) / (dx0[u] + dx0[v])
            del e[v]
            e = e[:pos1] + [e[pos1 - 1]] + e[pos1:]
        q.check('flows of joined and split links', np.allclose(e, Q1))


Contract('moves', 'C18', 'nsuperlink.nSuperLink.reposition_junctions', post_moves, schema=schema(False), prove=False, group='natural', gen=gen_moves, call=run_moves, noraise='bug',
         why='counterpart of `place` on random models and sequences of moves (the layout and the bed it assumes are those of real models)',
         scenarios=[scen('n%d' % n, prepare=prep_moves, model=dict(mobile_elements=True, internal_links=n)) for n in (2, 3, 4, 5, 8)])


# ---------------------------------------------------------------- proof: every superlink, every position
from .base import Bool            # noqa
from . import model as M          # noqa
import types                      # noqa


def superlinks():
    S = types.SimpleNamespace()
    S.SCHEMA = {n: ('real', ('N',)) for n in '_x_Ik _z_inv_Ik _h_Ik'.split()}
    S.SCHEMA.update({n: ('real', ('L',)) for n in '_dx_ik _Q_ik _S_o_ik'.split()})
    S.SCHEMA.update({n: ('real', ('K',)) for n in '_b0 _b1 _m _xc _zc'.split()})
    S.SCHEMA.update({n: ('int', ('K',)) for n in '_elem_pos _I_1k _I_Np1k _i_1k nk _J_dk'.split()})
    S.SCHEMA.update({'_kI': ('int', ('N',)), '_ki': ('int', ('L',)), 'H_j': ('real', ('J',))})
    S.SCALARS = {'NK': ('dim', 'K')}
    S.CONSTS = {'mobile_elements': True}
    S.INVARIANT = [f for f in M.LAYOUT if f[1] in S.SCHEMA and f[0] != 'pair'] + [
        ('near', '_kI', 'K', lambda q, a, I, k: q.Imp(q.And(a['_I_1k'][k] <= I, I <= a['_I_1k'][k] + a['nk'][k]), q.same(a['_kI'][I], k))),
        ('near', '_ki', 'K', lambda q, a, i, k: q.Imp(q.And(a['_i_1k'][k] <= i, i < a['_i_1k'][k] + a['nk'][k]), q.same(a['_ki'][i], k)))]
    return S


def first(a, I):
    return a['_I_1k'][a['_kI'][I]]


def reaches(q, a, k):
    """the downstream head is between the ends of the bed"""
    z0, zl, H = a['_z_inv_Ik'][a['_I_1k'][k]], a['_z_inv_Ik'][a['_I_1k'][k] + a['nk'][k]], a['H_j'][a['_J_dk'][k]]
    return q.And(zl < H, H < z0)


def place(q, a, k):
    """where the movable junction of superlink k belongs"""
    x0 = a['_x_Ik'][a['_I_1k'][k]]
    return q.ite(reaches(q, a, k), x0 + q.div(a['H_j'][a['_J_dk'][k]] - a['_b0'][k], a['_m'][k]), x0 + a['_xc'][k])


BED = [
    ('elem', '_elem_pos', lambda q, a, k: q.And(a['_elem_pos'][k] >= 1, a['_elem_pos'][k] < a['nk'][k])),
    ('pair', '_x_Ik', lambda q, a, i, j: q.Imp(q.And(i < j, q.same(a['_kI'][i], a['_kI'][j])), a['_x_Ik'][i] < a['_x_Ik'][j])),
    ('elem', '_dx_ik', lambda q, a, i: q.same(a['_dx_ik'][i], a['_x_Ik'][a['_I_1k'][a['_ki'][i]] + i - a['_i_1k'][a['_ki'][i]] + 1]
                                              - a['_x_Ik'][a['_I_1k'][a['_ki'][i]] + i - a['_i_1k'][a['_ki'][i]]])),
    ('elem', '_z_inv_Ik', lambda q, a, I: q.same(a['_z_inv_Ik'][I], a['_b0'][a['_kI'][I]] + a['_m'][a['_kI'][I]] * (a['_x_Ik'][I] - a['_x_Ik'][first(a, I)]))),
    ('elem', '_m', lambda q, a, k: a['_m'][k] <= 0),
    ('elem', '_xc', lambda q, a, k: q.And(a['_xc'][k] > 0, a['_xc'][k] < a['_x_Ik'][a['_I_1k'][k] + a['nk'][k]] - a['_x_Ik'][a['_I_1k'][k]])),
    ('elem', '_zc', lambda q, a, k: q.same(a['_zc'][k], a['_b0'][k] + a['_m'][k] * a['_xc'][k])),
    ('elem', '_kI', lambda q, a, I: q.Or(q.same(I, first(a, I) + a['_elem_pos'][a['_kI'][I]]), q.Not(q.same(a['_x_Ik'][I], place(q, a, a['_kI'][I]))))),
]


def post_place(q):
    o, n = q.old, q.new
    k_, l_ = (lambda I: [o['_kI'][I]]), (lambda i: [o['_ki'][i]])
    K, P0, P1 = (lambda I: o['_kI'][I]), (lambda k: o['_elem_pos'][k]), (lambda k: n['_elem_pos'][k])
    A, Cc = (lambda k: o['_I_1k'][k]), (lambda k: o['_i_1k'][k])
    asked = (lambda k: True) if q.scenario == 'every superlink' else (lambda k: q.arg('reposition')[k])
    t = lambda I: I - A(K(I))
    moved = lambda I: q.same(t(I), P1(K(I)))

    def src(I):
        k = K(I)
        u = q.ite(t(I) < P1(k), t(I), t(I) - 1)
        return A(k) + q.ite(u < P0(k), u, u + 1)
    q.each('the movable junction stays between the ends', ['K'], lambda k: q.And(P1(k) >= 1, P1(k) < o['nk'][k]))
    q.each('the movable junction goes where the downstream head meets the bed, or home', ['N'], lambda I: q.eq(n['_x_Ik'][I], place(q, o, K(I))),
           when=lambda I: q.And(asked(K(I)), moved(I)), hints=k_)
    for nm in ('_x_Ik', '_z_inv_Ik', '_h_Ik'):
        q.each('the other junctions stay: ' + nm, ['N'], lambda I, nm=nm: q.eq(n[nm][I], o[nm][src(I)]),
               when=lambda I: q.And(asked(K(I)), q.Not(moved(I))), hints=k_)
    q.each('junctions are in order', ['N'], lambda I: n['_x_Ik'][I] < n['_x_Ik'][I + 1], when=lambda I: t(I) < o['nk'][K(I)], hints=k_)
    level = lambda k: q.ite(reaches(q, o, k), o['H_j'][o['_J_dk'][k]], o['_zc'][k])
    q.each('invert of the moved junction', ['N'], lambda I: q.eq(n['_z_inv_Ik'][I], level(K(I))), when=lambda I: q.And(asked(K(I)), moved(I)), hints=k_)
    q.each('which is the level of the bed there', ['K'], lambda k: q.eq(level(k), o['_b0'][k] + o['_m'][k] * (place(q, o, k) - o['_x_Ik'][A(k)])), hints=lambda k: [k])
    q.each('inverts of the other junctions are on the bed', ['N'], lambda I: q.eq(n['_z_inv_Ik'][I], o['_b0'][K(I)] + o['_m'][K(I)] * (o['_x_Ik'][src(I)] - o['_x_Ik'][A(K(I))])),
           when=lambda I: q.And(asked(K(I)), q.Not(moved(I))), hints=k_)
    q.each('the downstream end stays', ['K'], lambda k: q.eq(n['_x_Ik'][A(k) + o['nk'][k]], o['_x_Ik'][A(k) + o['nk'][k]]), hints=lambda k: [k])
    q.each('the upstream end stays', ['K'], lambda k: q.eq(n['_x_Ik'][A(k)], o['_x_Ik'][A(k)]), hints=lambda k: [k])

    def profile(I):
        f = q.div(place(q, o, K(I)) - o['_x_Ik'][I], o['_x_Ik'][I + 1] - o['_x_Ik'][I])
        return (1 - f) * o['_h_Ik'][I] + f * o['_h_Ik'][I + 1]
    q.each('depth at the moved junction is that of the profile there', ['N'], lambda I: q.eq(n['_h_Ik'][A(K(I)) + P1(K(I))], profile(I)),
           when=lambda I: q.And(asked(K(I)), t(I) < o['nk'][K(I)], o['_x_Ik'][I] < place(q, o, K(I)), place(q, o, K(I)) <= o['_x_Ik'][I + 1]), hints=k_)
    q.each('links join neighbouring junctions', ['L'], lambda i: q.eq(n['_dx_ik'][i], n['_x_Ik'][A(o['_ki'][i]) + i - Cc(o['_ki'][i]) + 1] - n['_x_Ik'][A(o['_ki'][i]) + i - Cc(o['_ki'][i])]), hints=l_)

    def part(i):
        k = o['_ki'][i]
        c, p0, p1 = Cc(k), P0(k), P1(k)
        s = i - c
        u = q.ite(s < p1, s, s - 1)              # the link of which i is a part, the two at the old position being one
        return c, p0, p1, u

    def joined(i):
        c, p0, p1, u = part(i)
        d0, d1, Q0, Q1 = o['_dx_ik'][c + p0 - 1], o['_dx_ik'][c + p0], o['_Q_ik'][c + p0 - 1], o['_Q_ik'][c + p0]
        r = q.div(d0, d0 + d1)
        return q.eq(n['_Q_ik'][i], (1 - r) * Q0 + r * Q1)

    def other(i):
        c, p0, p1, u = part(i)
        return q.eq(n['_Q_ik'][i], o['_Q_ik'][c + q.ite(u < p0, u, u + 1)])

    def case(f):
        return lambda i: q.And(asked(o['_ki'][i]), f(*part(i)))
    q.each('flows where the order of junctions stays', ['L'], lambda i: q.eq(n['_Q_ik'][i], o['_Q_ik'][i]), when=case(lambda c, p0, p1, u: q.same(p0, p1)), hints=l_)
    for lab, past in (('downstream', lambda p0, p1: p0 < p1), ('upstream', lambda p0, p1: p1 < p0)):
        q.each('flow of the links joined by a move %s' % lab, ['L'], joined, when=case(lambda c, p0, p1, u, past=past: q.And(past(p0, p1), q.same(u, p0 - 1))), hints=l_)
        q.each('flows of the other links after a move %s' % lab, ['L'], other, when=case(lambda c, p0, p1, u, past=past: q.And(past(p0, p1), q.Not(q.same(u, p0 - 1)))), hints=l_)
    if q.scenario != 'every superlink':
        for nm in ('_x_Ik', '_z_inv_Ik', '_h_Ik'):
            q.each('superlinks not asked for are left alone: ' + nm, ['N'], lambda I, nm=nm: q.same(n[nm][I], o[nm][I]), when=lambda I: q.Not(asked(K(I))), hints=k_)
        for nm in ('_dx_ik', '_Q_ik'):
            q.each('superlinks not asked for are left alone: ' + nm, ['L'], lambda i, nm=nm: q.same(n[nm][i], o[nm][i]), when=lambda i: q.Not(asked(o['_ki'][i])), hints=l_)
        q.each('superlinks not asked for are left alone: position', ['K'], lambda k: q.same(P1(k), P0(k)), when=lambda k: q.Not(asked(k)))
    q.each('heads are unchanged', ['J'], lambda j: q.same(n['H_j'][j], o['H_j'][j]))


Contract('place', 'C18', 'nsuperlink.nSuperLink.reposition_junctions', post_place, schema=superlinks(), facts=BED, rac='none', timeout=20000, direct=True,
         owned={'over': 'K', 'N': '_kI', 'L': '_ki', 'K': None},
         scenarios=[scen('every superlink', args={'reposition': None}, pair_limit=24), scen('some', args={'reposition': Bool('K')}, pair_limit=24)])
