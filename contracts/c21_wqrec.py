"""C21 water quality: recurrences and superlink ends are an exact elimination of the mass balances of a superlink."""
from .base import Contract, scen, Real, Int, Bool
from . import wq_model as WQ


def link(q, i, a, x, b):
    """residual of the equation of link i with concentrations a | x | b"""
    o = q.old
    return o['_alpha_ik'][i] * a + o['_beta_ik'][i] * x + o['_chi_ik'][i] * b - o['_gamma_ik'][i]


def post_fwd(q):
    o, n = q.old, q.new
    U, Vv, W, T = n['_U_Ik'], n['_V_Ik'], n['_W_Ik'], n['_T_ik']
    y, z, x = q.real_any('c_next'), q.real_any('c_first'), q.real_any('c')

    def first(k):
        I, i = o['_I_1k'][k], o['_i_1k'][k]
        return q.eq(link(q, i, z, x, y), o['_beta_ik'][i] * (x - U[I] * y - Vv[I] - W[I] * z))
    q.each('first link', ['K'], first, when=lambda k: q.Not(q.same(o['_beta_ik'][o['_i_1k'][k]], 0.0)))

    def den(k, j):
        I = o['_I_1k'][k] + j
        return o['_lambda_Ik'][I] + o['_kappa_Ik'][I] * U[I - 1]

    def inner(k, j):
        I, i = o['_I_1k'][k] + j, o['_i_1k'][k] + j
        c = q.div(o['_eta_Ik'][I] - o['_kappa_Ik'][I] * (Vv[I - 1] + W[I - 1] * z) - o['_mu_Ik'][I] * x, den(k, j))
        return q.eq(link(q, i, c, x, y), T[i] * (x - U[I] * y - Vv[I] - W[I] * z))
    q.each('inner links', ['K', (1, lambda k: o['nk'][k])], inner, when=lambda k, j: q.And(
        q.Not(q.same(den(k, j), 0.0)), q.Not(q.same(T[o['_i_1k'][k] + j], 0.0))))


Contract('wq_forward', 'C21', 'nquality.QualityBuilder.forward_recurrence', post_fwd, schema=WQ)


def post_bwd(q):
    o, n = q.old, q.new
    X, Y, Z, O = n['_X_Ik'], n['_Y_Ik'], n['_Z_Ik'], n['_O_ik']
    y, z, x = q.real_any('c_here'), q.real_any('c_last'), q.real_any('c')

    def last(k):
        I, i = o['_I_1k'][k] + o['nk'][k] - 1, o['_i_1k'][k] + o['nk'][k] - 1
        return q.eq(link(q, i, y, x, z), o['_beta_ik'][i] * (x - X[I] * y - Y[I] - Z[I] * z))
    q.each('last link', ['K'], last, when=lambda k: q.Not(q.same(o['_beta_ik'][o['_i_1k'][k] + o['nk'][k] - 1], 0.0)))

    def den(k, j):
        I = o['_I_1k'][k] + j + 1
        return o['_lambda_Ik'][I] + o['_mu_Ik'][I] * X[I]

    def inner(k, j):
        I, i = o['_I_1k'][k] + j, o['_i_1k'][k] + j
        c = q.div(o['_eta_Ik'][I + 1] - o['_kappa_Ik'][I + 1] * x - o['_mu_Ik'][I + 1] * (Y[I + 1] + Z[I + 1] * z), den(k, j))
        return q.eq(link(q, i, y, x, c), O[i] * (x - X[I] * y - Y[I] - Z[I] * z))
    q.each('inner links', ['K', (0, lambda k: o['nk'][k] - 1)], inner, when=lambda k, j: q.And(
        q.Not(q.same(den(k, j), 0.0)), q.Not(q.same(O[o['_i_1k'][k] + j], 0.0))))


Contract('wq_backward', 'C21', 'nquality.QualityBuilder.backward_recurrence', post_bwd, schema=WQ)


def post_ends(q):
    """relations of the end reaches and the end junctions"""
    o, n = q.old, q.new
    cu, cd = q.real_any('c_Ju'), q.real_any('c_Jd')

    at = lambda nm, k, e: o[nm][o['_I_1k'][k] + (0 if e == 0 else o['nk'][k] - 1 + e - 1)]

    x, y = q.real_any('c_first'), q.real_any('c_last')
    # relations of the two end nodes, in the concentrations beside them
    q.each('concentration before the first junction', ['K'], lambda k: q.eq(
        at('_kappa_Ik', k, 0) * (n['_X_uk'][k] * x + n['_Y_uk'][k] + n['_Z_uk'][k] * y) + at('_lambda_Ik', k, 0) * x
        + at('_mu_Ik', k, 0) * (at('_X_Ik', k, 0) * x + at('_Y_Ik', k, 0) + at('_Z_Ik', k, 0) * y), at('_eta_Ik', k, 0)),
        when=lambda k: q.Not(q.same(at('_kappa_Ik', k, 0), 0.0)))
    q.each('concentration behind the last junction', ['K'], lambda k: q.eq(
        at('_mu_Ik', k, 2) * (n['_U_dk'][k] * y + n['_V_dk'][k] + n['_W_dk'][k] * x) + at('_lambda_Ik', k, 2) * y
        + at('_kappa_Ik', k, 2) * (at('_U_Ik', k, 1) * y + at('_V_Ik', k, 1) + at('_W_Ik', k, 1) * x), at('_eta_Ik', k, 2)),
        when=lambda k: q.Not(q.same(at('_mu_Ik', k, 2), 0.0)))
    q.each('equation of the upstream end reach', ['K'], lambda k: q.eq(
        o['_alpha_uk'][k] * cu + o['_beta_uk'][k] * x + o['_chi_uk'][k] * (
            n['_theta_uk'][k] * x + n['_sigma_uk'][k] * cu + n['_xi_uk'][k]), o['_gamma_uk'][k]),
        when=lambda k: q.Not(q.same(o['_chi_uk'][k], 0.0)))
    q.each('equation of the downstream end reach', ['K'], lambda k: q.eq(
        o['_alpha_dk'][k] * (n['_theta_dk'][k] * y + n['_sigma_dk'][k] * cd + n['_xi_dk'][k]) + o['_beta_dk'][k] * y + o['_chi_dk'][k] * cd,
        o['_gamma_dk'][k]), when=lambda k: q.Not(q.same(o['_alpha_dk'][k], 0.0)))

    for nm in ('_kappa_Ik', '_lambda_Ik', '_mu_Ik', '_eta_Ik', '_U_Ik', '_V_Ik', '_W_Ik', '_X_Ik', '_Y_Ik', '_Z_Ik'):
        q.each('only the end coefficients change: ' + nm, ['N'], lambda I, nm=nm: q.same(n[nm][I], o[nm][I]))


Contract('wq_ends', 'C21', 'nquality.QualityBuilder.boundary_coefficients', post_ends, schema=WQ)


def post_elim(q):
    """whatever the relations of the end reaches and end junctions are, the two end concentrations solve them together"""
    n = q.new
    cu, cd = q.real_any('c_Ju'), q.real_any('c_Jd')

    def parts(k):
        cuk = n['_rho_uk'][k] * cu + n['_tau_uk'][k] * cd + n['_zeta_uk'][k]
        cdk = n['_rho_dk'][k] * cu + n['_tau_dk'][k] * cd + n['_zeta_dk'][k]
        c1 = n['_theta_uk'][k] * cuk + n['_sigma_uk'][k] * cu + n['_xi_uk'][k]
        cN = n['_theta_dk'][k] * cdk + n['_sigma_dk'][k] * cd + n['_xi_dk'][k]
        return cuk, cdk, c1, cN

    def det(k):
        tu, td = n['_theta_uk'][k], n['_theta_dk'][k]
        return ((1 - n['_X_uk'][k] * tu) * (1 - n['_U_dk'][k] * td) - n['_W_dk'][k] * n['_Z_uk'][k] * tu * td)
    ok = lambda k: q.Not(q.same(det(k), 0.0))

    def up(k):
        cuk, cdk, c1, cN = parts(k)
        return q.eq(cuk, n['_X_uk'][k] * c1 + n['_Y_uk'][k] + n['_Z_uk'][k] * cN)

    def dn(k):
        cuk, cdk, c1, cN = parts(k)
        return q.eq(cdk, n['_U_dk'][k] * cN + n['_V_dk'][k] + n['_W_dk'][k] * c1)
    q.each('upstream end concentration solves both ends together', ['K'], up, when=ok)
    q.each('downstream end concentration solves both ends together', ['K'], dn, when=ok)


S = {'nquality.numba_boundary_coefficients': (['_X_uk', '_Y_uk', '_Z_uk', '_U_dk', '_V_dk', '_W_dk'], None)}
for nm, p in (('theta_uk', 'beta_uk'), ('sigma_uk', 'alpha_uk'), ('xi_uk', 'gamma_uk'), ('theta_dk', 'beta_dk'), ('sigma_dk', 'chi_dk'), ('xi_dk', 'gamma_dk')):
    S['nquality.' + nm] = ([], p)
Contract('wq_elimination', 'C21', 'nquality.QualityBuilder.boundary_coefficients', post_elim, schema=WQ, summaries=S, rtol=1e-4, atol=1e-6)
