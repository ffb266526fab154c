"""C15 superlink end flows, end depths and internal states recovered from the superjunction heads."""
from .base import Contract, scen, Real, Int, Bool


def post_flows(q):
    o, n = q.old, q.new
    for s in ('uk', 'dk'):
        q.each('end flow is the linear response to both heads: ' + s, ['K'], lambda k, s=s: q.eq(
            n['_Q_' + s][k], o['_alpha_' + s][k] * o['H_j'][o['_J_uk'][k]] + o['_beta_' + s][k] * o['H_j'][o['_J_dk'][k]] + o['_chi_' + s][k]))


Contract('end_flows', 'C15', 'nsuperlink.nSuperLink.solve_superlink_flows', post_flows)


def post_depths(q):
    o, n = q.old, q.new
    for s in ('uk', 'dk'):
        q.each('end depth satisfies the end head relation: ' + s, ['K'], lambda k, s=s: q.eq(
            n['_h_' + s][k], o['_kappa_' + s][k] * o['_Q_' + s][k] + o['_lambda_' + s][k] * o['H_j'][o['_J_' + s][k]] + o['_mu_' + s][k]))


Contract('end_depths', 'C15', 'nsuperlink.nSuperLink.solve_superlink_depths', post_depths)


def post_depths_alt(q):
    o, n = q.old, q.new

    def det(k):
        a, b = o['_I_1k'][k], o['_I_Nk'][k]
        return o['_X_Ik'][a] * o['_U_Ik'][b] - o['_Z_Ik'][a] * o['_W_Ik'][b]
    w = lambda k: q.Not(q.same(det(k), 0.0))
    q.each('upstream flow relation holds', ['K'], lambda k: q.eq(
        o['_X_Ik'][o['_I_1k'][k]] * n['_h_uk'][k] + o['_Y_Ik'][o['_I_1k'][k]] + o['_Z_Ik'][o['_I_1k'][k]] * n['_h_dk'][k], o['_Q_uk'][k]), when=w)
    q.each('downstream flow relation holds', ['K'], lambda k: q.eq(
        o['_U_Ik'][o['_I_Nk'][k]] * n['_h_dk'][k] + o['_V_Ik'][o['_I_Nk'][k]] + o['_W_Ik'][o['_I_Nk'][k]] * n['_h_uk'][k], o['_Q_dk'][k]), when=w)


Contract('end_depths_alt', 'C15', 'nsuperlink.nSuperLink.solve_superlink_depths_alt', post_depths_alt, rtol=1e-4, atol=1e-6)


def clip(q, x, lo, hi):
    return q.min(q.max(x, lo), hi)


def post_internals(backwards):
    def post(q):
        o, n = q.old, q.new
        lo = o['min_depth']
        # depth at a junction as the recurrences see it: the end depths are used as they are
        def h(k, I):
            return q.ite(q.same(I, o['_I_1k'][k]), o['_h_uk'][k], q.ite(
                q.same(I, o['_I_1k'][k] + o['nk'][k]), o['_h_dk'][k], n['_h_Ik'][I]))

        def fwd(i):
            k, I = o['_ki'][i], o['_Ik'][i]
            return o['_U_Ik'][I] * h(k, I + 1) + o['_V_Ik'][I] + o['_W_Ik'][I] * o['_h_uk'][k]

        def bwd(i):
            k, I = o['_ki'][i], o['_Ik'][i]
            return o['_X_Ik'][I] * h(k, I) + o['_Y_Ik'][I] + o['_Z_Ik'][I] * o['_h_dk'][k]
        first = lambda i: q.same(o['_i_1k'][o['_ki'][i]], i)
        q.each('flow of every link but the first: forward relation', ['L'], lambda i: q.eq(n['_Q_ik'][i], fwd(i)), when=lambda i: q.Not(first(i)),
               hints=lambda i: [o['_ki'][i]])
        q.each('flow of the first link', ['L'], lambda i: q.eq(n['_Q_ik'][i], bwd(i) if backwards else fwd(i)), when=first, hints=lambda i: [o['_ki'][i]])

        def inner(I):
            k = o['_kI'][I]
            i = o['_i_1k'][k] + I - o['_I_1k'][k]
            x = q.div0(n['_Q_ik'][i] - o['_Y_Ik'][I] - o['_Z_Ik'][I] * o['_h_dk'][k], o['_X_Ik'][I])
            return q.eq(n['_h_Ik'][I], clip(q, x, lo, o['max_depth_k'][k]))
        isin = lambda I: q.And(I > o['_I_1k'][o['_kI'][I]], I < o['_I_1k'][o['_kI'][I]] + o['nk'][o['_kI'][I]])
        q.each('interior depth: backward relation within the depth limits', ['N'], inner, when=isin, hints=lambda I: [o['_kI'][I]])
        q.each('first depth is the upstream end depth', ['K'], lambda k: q.eq(n['_h_Ik'][o['_I_1k'][k]], q.max(o['_h_uk'][k], lo)))
        q.each('last depth is the downstream end depth', ['K'], lambda k: q.eq(
            n['_h_Ik'][o['_I_1k'][k] + o['nk'][k]], q.max(o['_h_dk'][k], lo)))
    return post


DEEP = [('elem', 'max_depth_k', lambda q, a, k: a['max_depth_k'][k] >= a['min_depth'])]
Contract('internals_backwards', 'C15', 'nsuperlink.nSuperLink.solve_internals_backwards', post_internals(True), facts=DEEP, rtol=1e-4, atol=1e-6)
Contract('internals_forwards', 'C15', 'nsuperlink.nSuperLink.solve_internals_forwards', post_internals(False), facts=DEEP, rtol=1e-4, atol=1e-6)


def post_recurrence(q):
    o = q.old
    b, f = q.ret[0], q.ret[1]
    q.each('backward estimate of the flow of every link', ['L'], lambda i: q.eq(b[i], o['_X_Ik'][o['_Ik'][i]] * o['_h_Ik'][o['_Ik'][i]]
           + o['_Y_Ik'][o['_Ik'][i]] + o['_Z_Ik'][o['_Ik'][i]] * o['_h_dk'][o['_ki'][i]]))
    q.each('forward estimate of the flow of every link', ['L'], lambda i: q.eq(f[i], o['_U_Ik'][o['_Ik'][i]] * o['_h_Ik'][o['_Ip1k'][i]]
           + o['_V_Ik'][o['_Ik'][i]] + o['_W_Ik'][o['_Ik'][i]] * o['_h_uk'][o['_ki'][i]]))


Contract('recurrence_flows', 'C15', 'nsuperlink.nSuperLink.superlink_flow_from_recurrence', post_recurrence)


def post_lsq(q):
    o, n = q.old, q.new
    lo = o['min_depth']
    q.each('first depth is the upstream end depth', ['K'], lambda k: q.eq(n['_h_Ik'][o['_I_1k'][k]], q.max(o['_h_uk'][k], lo)))
    q.each('last depth is the downstream end depth', ['K'], lambda k: q.eq(
        n['_h_Ik'][o['_I_1k'][k] + o['nk'][k]], q.max(o['_h_dk'][k], lo)))
    q.each('depths are at least the minimum', ['N'], lambda I: n['_h_Ik'][I] >= lo)

    def est(i):
        k, I = o['_ki'][i], o['_Ik'][i]
        f = o['_U_Ik'][I] * n['_h_Ik'][I + 1] + o['_V_Ik'][I] + o['_W_Ik'][I] * o['_h_uk'][k]
        b = o['_X_Ik'][I] * n['_h_Ik'][I] + o['_Y_Ik'][I] + o['_Z_Ik'][I] * o['_h_dk'][k]
        return (f + b) / 2
    q.each('flow is the mean of both relations', ['L'], lambda i: q.eq(n['_Q_ik'][i], est(i)))

    # residual of a link: forward minus backward flow at the solution; its gradient in every interior depth vanishes
    def res(i):
        k, I = o['_ki'][i], o['_Ik'][i]
        f = o['_U_Ik'][I] * n['_h_Ik'][I + 1] + o['_V_Ik'][I] + o['_W_Ik'][I] * o['_h_uk'][k]
        b = o['_X_Ik'][I] * n['_h_Ik'][I] + o['_Y_Ik'][I] + o['_Z_Ik'][I] * o['_h_dk'][k]
        return f - b

    def stationary(k):
        i0, I0, m = int(o['_i_1k'][k]), int(o['_I_1k'][k]), int(o['nk'][k])
        hs = [float(n['_h_Ik'][I0 + j]) for j in range(m + 1)]
        if any(h <= float(lo) for h in hs):
            return True
        for j in range(1, m):
            g = float(o['_U_Ik'][I0 + j - 1] * res(i0 + j - 1) - o['_X_Ik'][I0 + j] * res(i0 + j))
            s = sum(abs(float(x)) for x in (o['_U_Ik'][I0 + j - 1] * res(i0 + j - 1), o['_X_Ik'][I0 + j] * res(i0 + j)))
            w = max([1.0, s] + [abs(float(o[v][I0 + a])) ** 2 * max(hs) for v in ('_U_Ik', '_X_Ik') for a in (j - 1, j)])
            if abs(g) > 1e-5 * w:
                return False
        return True
    q.each('interior depths minimise the disagreement of both relations', ['K'], stationary)


Contract('internals_lsq', 'C15', 'nsuperlink.nSuperLink.solve_internals_lsq', post_lsq, prove=False, rtol=1e-4, atol=1e-6,
         why='calls numpy.linalg.solve on matrices built per superlink')
