"""C06 momentum coefficients / C07 continuity coefficients / C08 recurrences"""
from .base import Contract, scen, Real, Int, Bool

DT = [scen('dt=None', {'_dt': None}), scen('dt given', {'_dt': Real()}, facts=[('fact', lambda q, a: a['arg._dt'] > 0)])]
G = 9.81


def dt_of(q):
    return q.arg('_dt') if q.has('_dt') else q.old['_dt']


def friction(q, Q, dx, A, R, n, m):
    """documented friction laws: Manning, Hazen-Williams, Darcy-Weisbach"""
    def man():
        return q.div(q.div(G * n * n * q.abs(Q) * dx, A), q.pow(R, q.rat(4, 3)))

    def hw():
        return q.div(q.div(q.div(q.real(1.354) * G * q.pow(q.abs(Q), 0.85) * dx, q.pow(A, 0.85)), q.pow(n, 1.85)), q.pow(R, 1.1655))

    def dw():
        Re = q.div(q.div(q.abs(Q), A) * 4 * R, 0.0000010034)
        lg = q.fn('LOG10', q.div(n, q.real(3.7) * 4 * R) + q.div(5.74, q.pow(Re, 0.9)))
        f = q.div(0.25, lg * lg)
        return q.div(0.01274 * G * f * q.abs(Q) * dx, A * R)
    return q.lazy(A > 0, lambda: q.lazy(q.same(m, 0), man, lambda: q.lazy(q.same(m, 1), hw, dw)), lambda: 0.0 * A)


def post_link(q):
    dt = dt_of(q)
    o, n = q.old, q.new
    q.each('a: upstream convection', ['L'], lambda i: q.eq(
        n['_a_ik'][i], -q.max(o['_u_Ik'][i], 0.0) * o['_sigma_ik'][i]))
    q.each('c: downstream convection', ['L'], lambda i: q.eq(
        n['_c_ik'][i], -q.max(-o['_u_Ip1k'][i], 0.0) * o['_sigma_ik'][i]))
    q.each('P: momentum forcing', ['L'], lambda i: q.eq(
        n['_P_ik'][i], o['states.Q_ik'][i] * o['_dx_ik'][i] / dt * o['_sigma_ik'][i]
        + G * o['_A_ik'][i] * o['_S_o_ik'][i] * o['_dx_ik'][i]))

    def b(i):
        fr = friction(q, o['_Q_ik'][i], o['_dx_ik'][i], o['_A_ik'][i], o['_R_ik'][i], o['_n_ik'][i], o['_Sf_method_ik'][i])
        st = q.lazy(o['_ctrl'][i], lambda: q.div(o['_C_ik'][i] * o['_A_ik'][i] * q.abs(o['_Q_ik'][i]),
                                                 o['_A_c_ik'][i] * o['_A_c_ik'][i]), lambda: 0.0 * o['_C_ik'][i])
        return q.eq(n['_b_ik'][i], o['_dx_ik'][i] / dt * o['_sigma_ik'][i] + fr + st - n['_a_ik'][i] - n['_c_ik'][i])
    q.each('b: inertia+friction+structure', ['L'], b)


Contract('link_coeffs', 'C06', 'nsuperlink.nSuperLink.link_coeffs', post_link, scenarios=DT)


def post_node(q):
    dt = dt_of(q)
    o, n = q.old, q.new

    def storage(I):
        k = o['_kI'][I]
        I1, i1, N = o['_I_1k'][k], o['_i_1k'][k], o['nk'][k]
        up = q.lazy(q.same(I, I1), lambda: o['_B_uk'][k] * o['_dx_uk'][k],
                    lambda: o['_B_ik'][i1 + I - I1 - 1] * o['_dx_ik'][i1 + I - I1 - 1])
        dn = q.lazy(q.same(I, I1 + N), lambda: o['_B_dk'][k] * o['_dx_dk'][k],
                    lambda: o['_B_ik'][i1 + I - I1] * o['_dx_ik'][i1 + I - I1])
        return (up / 2 + dn / 2 + o['_A_SIk'][I]) / dt
    q.each('E: storage over dt', ['N'], lambda I: q.eq(n['_E_Ik'][I], storage(I)))
    q.each('D: inflow + stored volume over dt', ['N'], lambda I: q.eq(
        n['_D_Ik'][I], (q.arg('_Q_0Ik')[I] if q.has('_Q_0Ik') else 0.0) + storage(I) * o['states.h_Ik'][I]))


Contract('node_coeffs', 'C07', 'nsuperlink.nSuperLink.node_coeffs', post_node,
         scenarios=[scen('defaults', {'_dt': None, '_Q_0Ik': None}),
                    scen('given', {'_dt': Real(), '_Q_0Ik': Real('N')}, facts=[('fact', lambda q, a: a['arg._dt'] > 0)])])


def resid(q, I1, i1, j, Qm, Qi, Qp, hI, hIp):
    """momentum residual of link i1+j"""
    o = q.old
    i = i1 + j
    return (o['_a_ik'][i] * Qm + o['_b_ik'][i] * Qi + o['_c_ik'][i] * Qp - o['_P_ik'][i]
            - G * o['_A_ik'][i] * (hI - hIp))


def post_fwd(q):
    o, n = q.old, q.new
    U, Vv, W, T = n['_U_Ik'], n['_V_Ik'], n['_W_Ik'], n['_T_ik']
    E, D = o['_E_Ik'], o['_D_Ik']
    y, z, x = q.real_any('h_next'), q.real_any('h_first'), q.real_any('q')

    # first link: continuity at I1 and I1+1 with Q_0 := D_1.. inflow at the superlink end handled by b_uk terms
    def first(k):
        I, i = o['_I_1k'][k], o['_i_1k'][k]
        Qi = x
        Qm = Qi - D[I] + E[I] * z
        Qp = Qi + D[I + 1] - E[I + 1] * y
        r = resid(q, I, i, 0, Qm, Qi, Qp, z, y)
        return q.eq(r, (o['_a_ik'][i] + o['_b_ik'][i] + o['_c_ik'][i]) * (Qi - U[I] * y - Vv[I] - W[I] * z))
    q.each('first link', ['K'], first, when=lambda k: q.Not(q.same(
        o['_a_ik'][o['_i_1k'][k]] + o['_b_ik'][o['_i_1k'][k]] + o['_c_ik'][o['_i_1k'][k]], 0.0)))

    def inner(k, j):
        I, i = o['_I_1k'][k] + j, o['_i_1k'][k] + j
        Qi = x
        h = q.div(Qi - D[I] - Vv[I - 1] - W[I - 1] * z, U[I - 1] - E[I])
        Qm = U[I - 1] * h + Vv[I - 1] + W[I - 1] * z
        Qp = Qi + D[I + 1] - E[I + 1] * y
        r = resid(q, o['_I_1k'][k], o['_i_1k'][k], j, Qm, Qi, Qp, h, y)
        return q.eq(r, T[i] * (Qi - U[I] * y - Vv[I] - W[I] * z))
    q.each('inner links', ['K', (1, lambda k: o['nk'][k])], inner, when=lambda k, j: q.And(
        q.Not(q.same(U[o['_I_1k'][k] + j - 1], E[o['_I_1k'][k] + j])), q.Not(q.same(T[o['_i_1k'][k] + j], 0.0))))


Contract('forward_recurrence', 'C08', 'nsuperlink.nSuperLink.forward_recurrence', post_fwd)


def post_bwd(q):
    """backward form: Q_i = X_I h_I + Y_I + Z_I h_{N+1} satisfies momentum of link i given continuity at I and I+1"""
    o, n = q.old, q.new
    X, Y, Z, O = n['_X_Ik'], n['_Y_Ik'], n['_Z_Ik'], n['_O_ik']
    E, D = o['_E_Ik'], o['_D_Ik']
    y, z, x = q.real_any('h_here'), q.real_any('h_last'), q.real_any('q')

    def last(k):
        I, i = o['_I_1k'][k] + o['nk'][k] - 1, o['_i_1k'][k] + o['nk'][k] - 1
        Qm = x - D[I] + E[I] * y
        Qp = x + D[I + 1] - E[I + 1] * z
        r = resid(q, None, i, 0, Qm, x, Qp, y, z)
        return q.eq(r, (o['_a_ik'][i] + o['_b_ik'][i] + o['_c_ik'][i]) * (x - X[I] * y - Y[I] - Z[I] * z))

    def nz_last(k):
        i = o['_i_1k'][k] + o['nk'][k] - 1
        return q.Not(q.same(o['_a_ik'][i] + o['_b_ik'][i] + o['_c_ik'][i], 0.0))
    q.each('last link', ['K'], last, when=nz_last)

    def inner(k, j):
        I, i = o['_I_1k'][k] + j, o['_i_1k'][k] + j
        h = q.div(x + D[I + 1] - Y[I + 1] - Z[I + 1] * z, X[I + 1] + E[I + 1])
        Qp = X[I + 1] * h + Y[I + 1] + Z[I + 1] * z
        Qm = x - D[I] + E[I] * y
        r = resid(q, None, i, 0, Qm, x, Qp, y, h)
        return q.eq(r, O[i] * (x - X[I] * y - Y[I] - Z[I] * z))
    q.each('inner links', ['K', (0, lambda k: o['nk'][k] - 1)], inner, when=lambda k, j: q.And(
        q.Not(q.same(X[o['_I_1k'][k] + j + 1] + E[o['_I_1k'][k] + j + 1], 0.0)),
        q.Not(q.same(O[o['_i_1k'][k] + j], 0.0))))


Contract('backward_recurrence', 'C08', 'nsuperlink.nSuperLink.backward_recurrence', post_bwd)
