"""C12 orifices, C13 weirs, C14 pumps: discharge and its linearisation."""
from .base import Contract, scen, Real, Int, Bool
from .c06_momentum import G



def sig(dim, extra=None):
    e = extra or {}
    return [scen('no signal', dict(e, u=None), dims={dim: 'pos'}), scen('signal', dict(e, u=Real(dim)), dims={dim: 'pos'})]


def geometry(q, s, i):
    """heads, higher and lower side, sign of the flow"""
    o = q.old
    Hu, Hd = o['H_j'][o['_J_u' + s][i]], o['H_j'][o['_J_d' + s][i]]
    u = q.arg('u')[i] if q.has('u') else q.real(0.0)
    crest = o['_z_inv_j'][o['_J_u' + s][i]] + o['_z_' + s][i]
    sign = q.ite(Hu >= Hd, 1.0, -1.0)
    return Hu, Hd, q.max(Hu, Hd), q.min(Hu, Hd), sign, crest, u


# ---------------------------------------------------------------- orifices
def orifice_regime(q, i, both, one, weir, none):
    o = q.old
    Hu, Hd, hi, lo, sign, crest, u = geometry(q, 'o', i)
    opening = o['_tau_o'][i] * o['_y_max_o'][i] * u
    shut = q.And(o['_unidir_o'][i], Hd >= Hu)
    return q.ite(shut, none(), q.ite(
        hi > crest + opening, q.ite(lo > crest + opening / 2, both(), one(sign, crest + opening / 2)),
        q.ite(hi > crest, weir(sign, crest), none())))


def post_orifice_coeffs(q):
    o, n = q.old, q.new
    Ha, Hb = q.real_any('H_u'), q.real_any('H_d')

    def flow(i):
        gam = q.div0(2 * G * o['_Co'][i] * o['_Co'][i] * o['_Ao'][i] * o['_Ao'][i], q.abs(o['_Qo'][i]))
        Hu, Hd, hi, lo, sign, crest, u = geometry(q, 'o', i)
        H = q.ite(Hu >= Hd, Ha, Hb)
        want = orifice_regime(q, i, lambda: gam * (Ha - Hb), lambda s, z: gam * s * (H - z),
                              lambda s, z: gam * s * (H - z), lambda: q.real(0.0))
        return q.eq(n['_alpha_o'][i] * Ha + n['_beta_o'][i] * Hb + n['_chi_o'][i], want)
    q.each('linearised discharge in the two heads', ['O'], flow)


Contract('orifice_coefficients', 'C12', 'nsuperlink.nSuperLink.orifice_flow_coefficients', post_orifice_coeffs, scenarios=sig('O'))


def post_orifice_flow(q):
    o, n = q.old, q.new
    dt = q.arg('dt')

    def flow(i):
        gam = 2 * G * o['_Co'][i] * o['_Co'][i] * o['_Ao'][i] * o['_Ao'][i]
        Hu, Hd, hi, lo, sign, crest, u = geometry(q, 'o', i)
        head = orifice_regime(q, i, lambda: hi - lo, lambda s, z: hi - z, lambda s, z: hi - z, lambda: q.real(0.0))
        avail = q.ite(Hu > Hd, o['_V_sj'][o['_J_uo'][i]], o['_V_sj'][o['_J_do'][i]]) / dt
        return sign, gam * head, avail

    ok = lambda i: flow(i)[2] >= 0
    q.each('magnitude: orifice law limited by the stored volume of the source', ['O'], lambda i: q.eq(
        q.abs(n['_Qo'][i]), q.min(q.sqrt(q.abs(flow(i)[1])), flow(i)[2])), when=ok)
    q.each('direction: from the higher to the lower head', ['O'], lambda i: q.le(0.0, flow(i)[0] * n['_Qo'][i]), when=ok)


Contract('orifice_flows', 'C12', 'nsuperlink.nSuperLink.solve_orifice_flows', post_orifice_flow,
         scenarios=sig('O', {'dt': Real()}), facts=[('fact', lambda q, a: a['arg.dt'] > 0)])


# ---------------------------------------------------------------- weirs
def weir_head(q, i):
    o = q.old
    Hu, Hd, hi, lo, sign, crest, u = geometry(q, 'w', i)
    z = crest + (1 - u) * o['_y_max_w'][i]
    return Hu, Hd, hi, lo, sign, z


def post_weir_coeffs(q):
    o, n = q.old, q.new
    Ha, Hb = q.real_any('H_u'), q.real_any('H_d')

    def flow(i):
        Hu, Hd, hi, lo, sign, z = weir_head(q, i)
        h = q.ite(hi > z, q.ite(lo > z, hi - lo, hi - z), 0.0)
        c = o['_Cwr'][i] * o['_L_w'][i] * h + o['_Cwt'][i] * o['_s_w'][i] * h * h
        gam = q.div0(c * c, q.abs(o['_Qw'][i]))
        H = q.ite(Hu >= Hd, Ha, Hb)
        want = q.ite(hi > z, q.ite(lo > z, gam * (Ha - Hb), gam * sign * (H - z)), 0.0)
        return q.eq(n['_alpha_w'][i] * Ha + n['_beta_w'][i] * Hb + n['_chi_w'][i], want)
    q.each('linearised discharge in the two heads', ['W'], flow)


Contract('weir_coefficients', 'C13', 'nsuperlink.nSuperLink.weir_flow_coefficients', post_weir_coeffs, scenarios=sig('W'))


def post_weir_flow(q):
    o, n = q.old, q.new

    def flow(i):
        Hu, Hd, hi, lo, sign, z = weir_head(q, i)
        h = q.ite(hi > z, q.ite(lo > z, hi - lo, hi - z), 0.0)
        c = o['_Cwr'][i] * o['_L_w'][i] * h + o['_Cwt'][i] * o['_s_w'][i] * h * h
        return q.eq(n['_Qw'][i], sign * q.sqrt(c * c * h))
    q.each('discharge: weir law with the sign of the head difference', ['W'], flow)


Contract('weir_flows', 'C13', 'nsuperlink.nSuperLink.solve_weir_flows', post_weir_flow, scenarios=sig('W'))


# ---------------------------------------------------------------- pumps
PUMP = [('elem', '_dHp_max', lambda q, a, i: a['_dHp_min'][i] <= a['_dHp_max'][i]),
        ('elem', '_b_p', lambda q, a, i: a['_b_p'][i] > 0),
        ('elem', '_c_p', lambda q, a, i: a['_c_p'][i] > 0)]


def clipped(q, i):
    o = q.old
    d = o['H_j'][o['_J_dp'][i]] - o['H_j'][o['_J_up'][i]]
    lo, hi = o['_dHp_min'][i], o['_dHp_max'][i]
    return d, lo, hi, q.max(q.min(d, hi), lo)


def running(q, i):
    o = q.old
    return o['H_j'][o['_J_up'][i]] > o['_z_inv_j'][o['_J_up'][i]] + o['_z_p'][i]


def post_pump_coeffs(q):
    o, n = q.old, q.new
    Ha, Hb = q.real_any('H_u'), q.real_any('H_d')
    U = lambda i: q.arg('u')[i] if q.has('u') else q.real(0.0)

    def flow(i):
        d, lo, hi, c = clipped(q, i)
        gam = q.div0(U(i), o['_b_p'][i] * q.pow(q.abs(o['_Qp'][i]), o['_c_p'][i] - 1))
        inside = q.And(d > lo, d < hi)
        want = q.ite(running(q, i), q.ite(inside, gam * (o['_a_p'][i] - (Hb - Ha)), gam * (o['_a_p'][i] - c)), 0.0)
        return q.eq(n['_alpha_p'][i] * Ha + n['_beta_p'][i] * Hb + n['_chi_p'][i], want)
    q.each('linearised pump curve in the two heads', ['P'], flow)


Contract('pump_coefficients', 'C14', 'nsuperlink.nSuperLink.pump_flow_coefficients', post_pump_coeffs, scenarios=sig('P'), facts=PUMP)


def post_pump_flow(q):
    o, n = q.old, q.new
    U = lambda i: q.arg('u')[i] if q.has('u') else q.real(0.0)
    q.each('discharge: pump curve at the clipped head difference, none when the inlet is dry', ['P'], lambda i: q.eq(
        n['_Qp'][i], q.ite(running(q, i), q.pow(q.div(U(i), o['_b_p'][i]) * (o['_a_p'][i] - clipped(q, i)[3]),
                                                q.div(1.0, o['_c_p'][i])), 0.0)))


Contract('pump_flows', 'C14', 'nsuperlink.nSuperLink.solve_pump_flows', post_pump_flow, scenarios=sig('P'),
         facts=PUMP + [('elem', '_a_p', lambda q, a, i: a['_a_p'][i] >= a['_dHp_max'][i])])
