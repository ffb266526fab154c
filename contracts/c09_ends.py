"""C06 node velocities, C09 superlink ends: head relations and elimination of end depths."""
from .base import Contract, scen, Real, Int, Bool
from .c06_momentum import friction, G, DT, dt_of


def post_vel(q):
    o, n = q.old, q.new

    def vel(i):
        return q.div0(o['_Q_ik'][i], o['_A_ik'][i])
    q.each('link velocity Q/A', ['L'], lambda i: q.eq(n['_u_ik'][i], vel(i)))

    def between(i, j):
        a, b = o['_dx_ik'][i], o['_dx_ik'][j]
        return q.div(a * vel(j) + b * vel(i), a + b)
    q.each('upstream node velocity', ['L'], lambda i: q.eq(n['_u_Ik'][i], q.lazy(
        o['_link_start'][i], lambda: vel(i), lambda: between(i, i - 1))))
    q.each('downstream node velocity', ['L'], lambda i: q.eq(n['_u_Ip1k'][i], q.lazy(
        o['_link_end'][i], lambda: vel(i), lambda: between(i, i + 1))))


Contract('node_velocities', 'C06', 'nsuperlink.nSuperLink.node_velocities', post_vel)


def ends(s):
    """scenarios: boundary condition method x time step"""
    return [dict(d, name='%s %s' % (m, d['name']), attrs=dict(d['attrs'], _bc_method=m), keep=('_A_' + s,) if 0 else ())
            for m in ('z', 'b') for d in DT]


def post_head(s, sign):
    def post(q):
        dt = dt_of(q)
        o, n = q.old, q.new
        at = lambda nm, k: o['_%s_%s' % (nm, s)][k]
        th = lambda k: q.ite(o['H_j'][at('J', k)] >= at('z_inv', k), 1.0, 0.0)
        momentum = q.scenario.startswith('b')
        q.each('theta/lambda: end is connected iff head reaches its invert', ['K'], lambda k: q.And(
            q.eq(n['_theta_' + s][k], th(k)), q.eq(n['_lambda_' + s][k], th(k))))

        def mu(k):
            r = -th(k) * at('z_inv', k)
            if momentum:
                r = r + sign * (at('dx', k) * at('S_o', k)
                                + q.div(o['states.Q_' + s][k] * at('dx', k), G * at('A', k) * dt))
            return q.eq(n['_mu_' + s][k], r)

        def kappa(k):
            loss = q.div0(at('C', k) * q.abs(at('Q', k)), 2 * G * at('A', k) * at('A', k))
            if momentum:
                loss = loss + q.div(at('dx', k), G * at('A', k) * dt) + q.div(friction(
                    q, at('Q', k), at('dx', k), at('A', k), at('R', k), at('n', k), at('Sf_method', k)), G * at('A', k))
            return q.eq(n['_kappa_' + s][k], -sign * loss)
        w = (lambda k: at('A', k) > 0) if momentum else None
        q.each('mu: datum, slope and inertia', ['K'], mu, when=w)
        q.each('kappa: head loss per unit flow', ['K'], kappa, when=w)
    return post


Contract('upstream_head', 'C09', 'nsuperlink.nSuperLink.superlink_upstream_head_coefficients', post_head('uk', 1), scenarios=ends('uk'))
Contract('downstream_head', 'C09', 'nsuperlink.nSuperLink.superlink_downstream_head_coefficients', post_head('dk', -1),
         scenarios=ends('dk'))


def post_elim(q):
    """with Q_u = alpha_u H_u + beta_u H_d + chi_u (and Q_d likewise) and end depths h = kappa Q + lambda H + mu,
    the recurrences at both ends hold identically in the superjunction heads"""
    o, n = q.old, q.new
    Hu, Hd = q.real_any('H_u'), q.real_any('H_d')
    own = q.scenario == 'o'

    def parts(k):
        I1, N = o['_I_1k'][k], o['_I_1k'][k] + o['nk'][k] - 1
        X, Y, Z = o['_X_Ik'][I1], o['_Y_Ik'][I1], o['_Z_Ik'][I1]
        U, Vv, W = o['_U_Ik'][N], o['_V_Ik'][N], o['_W_Ik'][N]
        if not own:
            X, Y = X + o['_E_Ik'][I1], Y - o['_D_Ik'][I1]
            U, Vv = U - o['_E_Ik'][N + 1], Vv + o['_D_Ik'][N + 1]
        Qu = n['_alpha_uk'][k] * Hu + n['_beta_uk'][k] * Hd + n['_chi_uk'][k]
        Qd = n['_alpha_dk'][k] * Hu + n['_beta_dk'][k] * Hd + n['_chi_dk'][k]
        hu = o['_kappa_uk'][k] * Qu + o['_lambda_uk'][k] * Hu + o['_mu_uk'][k]
        hd = o['_kappa_dk'][k] * Qd + o['_lambda_dk'][k] * Hd + o['_mu_dk'][k]
        det = ((X * o['_kappa_uk'][k] - 1) * (U * o['_kappa_dk'][k] - 1)
               - Z * o['_kappa_dk'][k] * W * o['_kappa_uk'][k])
        return X, Y, Z, U, Vv, W, Qu, Qd, hu, hd, det

    def up(k):
        X, Y, Z, U, Vv, W, Qu, Qd, hu, hd, det = parts(k)
        return q.eq(Qu * det, (X * hu + Y + Z * hd) * det)

    def dn(k):
        X, Y, Z, U, Vv, W, Qu, Qd, hu, hd, det = parts(k)
        return q.eq(Qd * det, (U * hd + Vv + W * hu) * det)
    nz = lambda k: q.Not(q.same(parts(k)[-1], 0.0))
    q.each('upstream end flow satisfies the backward recurrence', ['K'], up, when=nz)
    q.each('downstream end flow satisfies the forward recurrence', ['K'], dn, when=nz)
    q.each('determinant', ['K'], lambda k: q.eq(n['_D_k_star'][k], parts(k)[-1]))


Contract('flow_coefficients', 'C09', 'nsuperlink.nSuperLink.superlink_flow_coefficients', post_elim,
         scenarios=[scen('b', attrs={'_end_method': 'b'}), scen('o', attrs={'_end_method': 'o'})])
