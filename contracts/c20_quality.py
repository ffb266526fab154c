"""C20 water quality: fluxes, link and node mass balances."""
from .base import Contract, scen, Real, Int, Bool
from . import wq_model as WQ
from .c06_momentum import DT
from .sections import area

POS = [('fact', lambda q, a: a['arg._dt'] > 0)]


def dt_of(q):
    return q.arg('_dt') if q.has('_dt') else q.old['hydraulics.t'] - q.old['hydraulics.states.t']


# ---------------------------------------------------------------- hydraulic quantities the balances use
def post_import(q):
    o, n = q.old, q.new
    dt = q.arg('_dt')
    H = lambda x: o['hydraulics.' + x]
    P = lambda x: o['hydraulics.states.' + x]
    q.each('volume of every superjunction, now', ['J'], lambda j: q.eq(n['_V_j_next'][j], H('_A_sj')[j] * (H('H_j')[j] - H('_z_inv_j')[j])))
    q.each('volume of every superjunction, before', ['J'], lambda j: q.eq(n['_V_j_prev'][j], H('_A_sj')[j] * (P('H_j')[j] - H('_z_inv_j')[j])))
    dh = lambda I: q.div(H('_h_Ik')[I] - P('h_Ik')[I], dt)
    dH = lambda j: q.div(H('H_j')[j] - P('H_j')[j], dt)
    up, dn = (lambda i: H('_Ik')[i]), (lambda i: H('_Ip1k')[i])
    w = lambda i: H('_B_ik')[i] * H('_dx_ik')[i] / 2
    hl = lambda i: [o['_ki'][i]]
    q.each('flow entering a link: flow plus filling of the half before it', ['L'], lambda i: q.eq(
        n['_Q_ik_up_next'][i], H('_Q_ik')[i] + w(i) * dh(up(i))), hints=hl)
    q.each('flow leaving a link: flow minus filling of the half behind it', ['L'], lambda i: q.eq(
        n['_Q_ik_dn_next'][i], H('_Q_ik')[i] - w(i) * dh(dn(i))), hints=hl)
    sh = {'circular': 'Circular', 'rect_open': 'Rect_Open'}[q.scenario]

    def A(ya, yb, i, B):
        if sh == 'Circular':
            return area(q, sh, ya, yb, [H('_g1_ik')[i]])
        return B * (ya + yb) / 2
    q.each('area of every link', ['L'], lambda i: q.eq(n['_A_ik_next'][i], A(H('_h_Ik')[up(i)], H('_h_Ik')[dn(i)], i, H('_B_ik')[i])), hints=hl)
    q.each('previous area of every link', ['L'], lambda i: q.eq(n['_A_ik_prev'][i], H('_A_ik')[i]))
    for s, I, i in (('uk', '_I_1k', '_i_1k'), ('dk', '_I_Np1k', '_i_nk')):
        J = '_J_' + s
        we = lambda k, s=s: H('_B_' + s)[k] * o['_dx_' + s][k] / 2
        first, second = (lambda k, J=J: dH(o[J][k])), (lambda k, I=I: dh(o[I][k]))
        if s == 'dk':
            first, second = second, first
        q.each('flow entering the end ' + s, ['K'], lambda k, f=first, s=s, w=we: q.eq(
            n['_Q_%s_up_next' % s][k], H('_Q_' + s)[k] + w(k) * f(k)))
        q.each('flow leaving the end ' + s, ['K'], lambda k, f=second, s=s, w=we: q.eq(
            n['_Q_%s_dn_next' % s][k], H('_Q_' + s)[k] - w(k) * f(k)))
        for t, src in (('next', H), ('prev', P)):
            h = 'h_Ik' if t == 'prev' else '_h_Ik'
            q.each('area of the end %s, %s' % (s, t), ['K'], lambda k, src=src, h=h, J=J, I=I, i=i, s=s, t=t: q.eq(
                n['_A_%s_%s' % (s, t)][k], A(src('H_j')[o[J][k]] - H('_z_inv_j')[o[J][k]], src(h)[o[I][k]], o[i][k], H('_B_' + s)[k])))
    for nm, a, d in (('orifice', 'o', 'O'), ('weir', 'w', 'W'), ('pump', 'p', 'P')):
        if q.scenario == 'circular':
            q.each('flow of every ' + nm, [d], lambda k, a=a: q.eq(n['_Q_%s_next' % a][k], H('_Q' + a)[k]))


def shape_fact(code):
    return [('elem', 'hydraulics._geom_codes', lambda q, a, i: q.same(a['hydraulics._geom_codes'][i], code)),
            ('elem', 'hydraulics._g1_ik', lambda q, a, i: a['hydraulics._g1_ik'][i] > 0)]


CTL = {'circular': {'O': 'pos', 'W': 'pos', 'P': 'pos'}, 'rect_open': {'O': 0, 'W': 0, 'P': 0}}
Contract('wq_import', 'C20', 'nquality.QualityBuilder.import_hydraulic_states', post_import, schema=WQ, params={'_dt': Real()},
         facts=POS, scenarios=[scen(nm, facts=shape_fact(c), dims=CTL[nm], shape=nm) for nm, c in (('circular', 1), ('rect_open', 3))])


def post_nodeq(q):
    o, n = q.old, q.new
    for nm, src in (('_A_Ik_next', '_A_ik_next'), ('_D_Ik', '_D_ik')):
        q.each('value at a junction is that of the link behind it: ' + nm, ['N'], lambda I, nm=nm, src=src: q.eq(
            n[nm][I], o[src][o['_i_1k'][o['_kI'][I]] + I - o['_I_1k'][o['_kI'][I]] - 1]),
            when=lambda I: I > o['_I_1k'][o['_kI'][I]], hints=lambda I: [o['_kI'][I]])


def flux_in(q, Q, D, A, dx, a, b):
    """mass entering a reach of concentration b from a neighbour of concentration a"""
    return Q * q.ite(Q > 0, a, b) + q.div(2 * D * A, dx) * (a - b)


def reach(q, s, i, dt, K, cl, c, cr):
    """mass balance of a reach (link or superlink end): storage + decay + outflow - inflow"""
    o = q.old
    g = lambda nm: o[nm.replace('_ik', '_' + s)][i]
    dx = o['_dx_ik_next'][i] if s == 'ik' else o['_dx_' + s][i]
    A, Ap, cp = g('_A_ik_next'), g('_A_ik_prev'), g('_c_ik')
    store = dx * q.div(A * (c - cp) + c * (A - Ap), dt)
    inn = flux_in(q, g('_Q_ik_up_next'), g('_D_ik'), A, dx, cl, c)
    out = flux_in(q, g('_Q_ik_dn_next'), g('_D_ik'), A, dx, c, cr)
    return store + K * dx * A * c + out - inn


def post_link(q):
    dt = dt_of(q)
    o, n = q.old, q.new
    cl, c, cr = q.real_any('left'), q.real_any('here'), q.real_any('right')
    for s, d, K in (('ik', 'L', lambda i: o['_K_ik'][i]), ('uk', 'K', lambda k: 0.0), ('dk', 'K', lambda k: 0.0)):
        q.each('equation is the mass balance of the reach: ' + s, [d], lambda i, s=s, K=K: q.eq(
            n['_alpha_' + s][i] * cl + n['_beta_' + s][i] * c + n['_chi_' + s][i] * cr - n['_gamma_' + s][i],
            reach(q, s, i, dt, K(i), cl, c, cr)))


Contract('wq_link_coeffs', 'C20', 'nquality.QualityBuilder.link_coeffs', post_link, schema=WQ, scenarios=DT)


def post_node(q):
    dt = dt_of(q)
    o, n = q.old, q.new
    cl, c, cr = q.real_any('left'), q.real_any('here'), q.real_any('right')

    def side(I, behind, where):
        """(flow, diffusion, area, length) of the reach ahead of or behind junction I at the junction"""
        k = o['_kI'][I]
        I1, i1, N = o['_I_1k'][k], o['_i_1k'][k], o['nk'][k]

        def end(s, f):
            return [o['_Q_%s_%s_next' % (s, f)][k], o['_D_' + s][k], o['_A_%s_next' % s][k], o['_dx_' + s][k]]

        def link(i, f):
            return [o['_Q_ik_%s_next' % f][i], o['_D_ik'][i], o['_A_ik_next'][i], o['_dx_ik_next'][i]]
        if behind:
            return end('uk', 'dn') if where == 'first' else link(i1 + I - I1 - 1, 'dn')
        return end('dk', 'up') if where == 'last' else link(i1 + I - I1, 'up')

    def bal(I, where):
        A, hn, hp = o['_A_SIk'][I], o['_h_Ik_next'][I], o['_h_Ik_prev'][I]
        r = A * q.div(hn * (c - o['_c_Ik'][I]) + c * (hn - hp), dt) + A * hn * o['_K_Ik'][I] * c
        if q.has('_Q_0Ik') and q.has('_c_0Ik'):
            r = r - q.arg('_Q_0Ik')[I] * q.arg('_c_0Ik')[I]
        return (r + flux_in(q, *side(I, False, where), c, cr) - flux_in(q, *side(I, True, where), cl, c))
    eq = lambda where: lambda I: q.eq(n['_kappa_Ik'][I] * cl + n['_lambda_Ik'][I] * c + n['_mu_Ik'][I] * cr - n['_eta_Ik'][I], bal(I, where))
    k0 = lambda I: o['_I_1k'][o['_kI'][I]]
    first, last = (lambda I: q.same(I, k0(I))), (lambda I: q.same(I, k0(I) + o['nk'][o['_kI'][I]]))
    hk = lambda I: [o['_kI'][I]]
    q.each('equation is the mass balance of the first junction', ['N'], eq('first'), when=first, hints=hk)
    q.each('equation is the mass balance of the last junction', ['N'], eq('last'), when=last, hints=hk)
    q.each('equation is the mass balance of an inner junction', ['N'], eq('inner'), when=lambda I: q.And(q.Not(first(I)), q.Not(last(I))), hints=hk)


Contract('wq_node_coeffs', 'C20', 'nquality.QualityBuilder.node_coeffs', post_node, schema=WQ,
         scenarios=[scen('defaults', {'_dt': None, '_Q_0Ik': None, '_c_0Ik': None}),
                    scen('given', {'_dt': Real(), '_Q_0Ik': Real('N'), '_c_0Ik': Real('N')}, facts=POS)])
