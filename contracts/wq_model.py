"""Data model of QualityBuilder (water quality), with the hydraulic model it reads as a nested object."""
from . import model as HM

R, I, B = 'real', 'int', 'bool'
NESTED = {'hydraulics': 'nsuperlink.nSuperLink'}
SCHEMA = {}


def _add(kind, dims, names):
    for n in names.split():
        SCHEMA[n] = (kind, tuple(dims))


_add(R, 'L', '''_Q_ik_up_next _Q_ik_dn_next _dx_ik_next _D_ik _K_ik _c_ik _A_ik_next _A_ik_prev _alpha_ik _beta_ik _chi_ik _gamma_ik
 _T_ik _O_ik _Q_ik_next hydraulics._dx_ik hydraulics._Q_ik hydraulics._g1_ik hydraulics._B_ik hydraulics._A_ik hydraulics.states.Q_ik''')
_add(I, 'L', '_ki _ik _Ik _Ip1k hydraulics._Ik hydraulics._Ip1k hydraulics._geom_codes')
_add(R, 'N', '''_K_Ik _c_Ik _A_SIk _h_Ik_next _h_Ik_prev _kappa_Ik _lambda_Ik _mu_Ik _eta_Ik _U_Ik _V_Ik _W_Ik _X_Ik _Y_Ik _Z_Ik
 _D_Ik _A_Ik_next hydraulics._h_Ik hydraulics._Q_0Ik hydraulics.states.h_Ik''')
_add(I, 'N', '_kI _forward_I_i _backward_I_i _I')
_add(B, 'N', '_is_start _is_end')
_add(R, 'K', '''_dx_uk _dx_dk _D_uk _D_dk _A_uk_next _A_dk_next _A_uk_prev _A_dk_prev _Q_uk_up_next _Q_uk_dn_next _Q_dk_up_next _Q_dk_dn_next
 _alpha_uk _beta_uk _chi_uk _gamma_uk _alpha_dk _beta_dk _chi_dk _gamma_dk _X_uk _Y_uk _Z_uk _U_dk _V_dk _W_dk
 _theta_uk _sigma_uk _xi_uk _theta_dk _sigma_dk _xi_dk _rho_uk _tau_uk _zeta_uk _rho_dk _tau_dk _zeta_dk _c_uk _c_dk _c_1k _c_Np1k
 hydraulics._B_uk hydraulics._B_dk hydraulics._Q_uk hydraulics._Q_dk hydraulics.states.Q_uk hydraulics.states.Q_dk''')
_add(I, 'K', '_I_1k _I_Nk _I_Np1k _i_1k _i_nk nk _J_uk _J_dk')
_add(R, 'J', '''_K_j _c_j _V_j_next _V_j_prev _F_jj _O_diag _W_diag _P_diag D b hydraulics._A_sj hydraulics._z_inv_j hydraulics.H_j
 hydraulics._Q_in hydraulics.states.H_j _H_j_next''')
_add(B, 'J', 'bc')
_add(R, 'JJ', 'A O W P')
_add(R, 'O', '_Q_o_next hydraulics._Qo hydraulics.states.Q_o')
_add(R, 'W', '_Q_w_next hydraulics._Qw hydraulics.states.Q_w')
_add(R, 'P', '_Q_p_next hydraulics._Qp hydraulics.states.Q_p')
for _s in 'OWP':
    _add(I, _s, '_J_u%s _J_d%s' % (_s.lower(), _s.lower()))

SCALARS = {'NK': ('dim', 'K'), 'M': ('dim', 'J'), 'n_o': ('dim', 'O'), 'n_w': ('dim', 'W'), 'n_p': ('dim', 'P'),
           '_c_min': (R,), '_c_max': (R,), 'hydraulics.t': (R,), 'hydraulics.states.t': (R,)}
CONSTS = {'_sparse': False, 'hydraulics.banded': False}
FREE_INT = {}
FREE_BOOL = ('bc',)
SCALAR_GEN = {'hydraulics.t': lambda g: g.r.choice([20., 3600.]) + g.r.choice([.5, 1., 60.]),
              'hydraulics.states.t': lambda g: g.r.choice([10., 20.]),
              '_c_min': lambda g: g.r.choice([0., -.5]), '_c_max': lambda g: g.r.choice([1.2, 2., 40.])}
LAYOUT_NAMES = {'forward_I_i': '_forward_I_i', 'backward_I_i': '_backward_I_i'}


class _Ren:
    """the hydraulic layout facts, read through the names QualityBuilder uses"""
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a[LAYOUT_NAMES.get(k, k)]


def _ren(f):
    if f[0] == 'fact':
        return ('fact', lambda q, a, g=f[1]: g(q, _Ren(a)))
    return (f[0], LAYOUT_NAMES.get(f[1], f[1])) + tuple((lambda q, a, *i, g=g: g(q, _Ren(a), *i)) for g in f[2:])


INVARIANT = [_ren(f) for f in HM.LAYOUT if LAYOUT_NAMES.get(f[1], f[1]) in SCHEMA] + [
    ('def', 'hydraulics._Ik', lambda q, a, i: a['_I_1k'][a['_ki'][i]] + i - a['_i_1k'][a['_ki'][i]]),
    ('def', 'hydraulics._Ip1k', lambda q, a, i: a['hydraulics._Ik'][i] + 1),
    ('elem', '_dx_ik_next', lambda q, a, i: a['_dx_ik_next'][i] > 0),
    ('elem', 'hydraulics._dx_ik', lambda q, a, i: a['hydraulics._dx_ik'][i] > 0),
    ('elem', '_dx_uk', lambda q, a, i: a['_dx_uk'][i] > 0),
    ('elem', '_dx_dk', lambda q, a, i: a['_dx_dk'][i] > 0),
    ('elem', '_D_ik', lambda q, a, i: a['_D_ik'][i] >= 0),
    ('elem', '_D_uk', lambda q, a, i: a['_D_uk'][i] >= 0),
    ('elem', '_D_dk', lambda q, a, i: a['_D_dk'][i] >= 0),
    ('fact', lambda q, a: a['_c_max'] >= a['_c_min']),
    ('fact', lambda q, a: a['hydraulics.t'] > a['hydraulics.states.t']),
]


def make(g, cls, s, over, c):
    """a random water quality model on a random stepped hydraulic model (bounded side)"""
    from models import np, pd
    shape = s.get('shape') or g.r.choice(['circular', 'rect_open'])
    m = g.model(ends=True, shapes=[shape], **over, **s.get('model', {}))
    dt = g.r.choice([1., 5., 20.])
    try:
        for _ in range(g.r.randint(1, 3)):
            m.step(dt=dt)
    except (ValueError, AssertionError, np.linalg.LinAlgError):
        return None
    K, M = m.NK, m.M
    r = g.r
    sj = pd.DataFrame(dict(K=[r.choice([0., 1e-3, .1]) for _ in range(M)], c_0=[r.uniform(0, 2) for _ in range(M)],
                           bc=[r.random() < .3 for _ in range(M)]))
    sl = pd.DataFrame(dict(K=[r.choice([0., 1e-3, .1]) for _ in range(K)], c_0=[r.uniform(0, 2) for _ in range(K)],
                           D=[r.choice([.05, .5, 3.]) for _ in range(K)], KF_obs_point=[r.randrange(M)] * K,
                           KF_process_sigma=[r.choice([.1, 1.])] * K, KF_measure_sigma=[r.choice([.1, 1.])] * K))
    if r.random() < .5:
        sl['D_uk'] = [r.choice([.05, .5, 3.]) for _ in range(K)]
        sl['D_dk'] = [r.choice([.05, .5, 3.]) for _ in range(K)]
    try:
        w = cls(m, sj, sl, c_min=0., c_max=r.choice([1.5, 40.]))
        for _ in range(g.r.randint(0, 2)):
            m.step(dt=dt)
            w.step(dt=dt)
    except (ValueError, AssertionError, np.linalg.LinAlgError):
        return None
    return w
