"""Data model of nSuperLink used by method contracts: attribute kinds, dimensions, and the class
invariant (preconditions common to every method contract).  The same invariant text is assumed
symbolically and evaluated on real objects."""

R, I, B = 'real', 'int', 'bool'
DIMS = {'K': 1, 'L': 1, 'N': 1, 'J': 1, 'O': 0, 'W': 0, 'P': 0, 'H': 0, 'S': 0, 'C': 0, 'E': 0, 'T': 0, 'TC': 0}     # lower bounds

SCHEMA = {}


def _add(kind, dims, names):
    for n in names.split():
        SCHEMA[n] = (kind, tuple(dims))


_add(R, 'L', '''_u_ik _u_Ik _u_Ip1k _dx_ik _n_ik _Q_ik _A_ik _R_ik _Pe_ik _B_ik _S_o_ik _A_c_ik _C_ik _sigma_ik
 _a_ik _b_ik _c_ik _P_ik _T_ik _O_ik _g1_ik _g2_ik _g3_ik _g4_ik _g5_ik _g6_ik _g7_ik states.Q_ik states.A_ik''')
_add(I, 'L', '_Sf_method_ik _ik _ki _Ik _Ip1k _geom_codes')
_add(B, 'L', '_ctrl _link_start _link_end _is_irregular')
_add(R, 'N', '''_h_Ik _A_SIk _E_Ik _D_Ik _U_Ik _V_Ik _W_Ik _X_Ik _Y_Ik _Z_Ik _z_inv_Ik _x_Ik
 states.h_Ik states.x_Ik''')
_add(I, 'N', '_kI forward_I_i backward_I_i _I')
_add(B, 'N', '_is_start _is_end _is_penult _I_start _I_end')
_add(R, 'K', '''_A_uk _A_dk _B_uk _B_dk _Pe_uk _Pe_dk _R_uk _R_dk _C_uk _C_dk _n_uk _n_dk _dx_uk _dx_dk _S_o_uk _S_o_dk
 _theta_uk _theta_dk _Q_uk _Q_dk _h_uk _h_dk _kappa_uk _kappa_dk _lambda_uk _lambda_dk _mu_uk _mu_dk
 _alpha_uk _beta_uk _chi_uk _alpha_dk _beta_dk _chi_dk _D_k_star _z_inv_uk _z_inv_dk max_depth_k
 states.Q_uk states.Q_dk states.A_uk states.A_dk''')
_add(I, 'K', '_I_1k _I_2k _I_Nk _I_Np1k _i_1k _i_nk nk _J_uk _J_dk _Sf_method_uk _Sf_method_dk _k_1k start_nodes end_nodes')
_add(R, 'J', '''H_j _z_inv_j max_depth _A_sj _V_sj _F_jj D b _storage_a _storage_b _storage_c
 _alpha_ukm _beta_dkl _chi_ukl _chi_dkm _O_diag _W_diag _P_diag states.H_j states.A_sj states.V_j''')
_add(B, 'J', 'bc _functional _tabular')
_add(R, 'JJ', 'A O W P')
_add(R, 'O', '''_alpha_o _beta_o _chi_o _Ao _Qo _Co _z_o _y_max_o _alpha_uom _beta_dol _chi_uol _chi_dom _g1_o _g2_o _g3_o
 _Ao_max _tau_o''')
_add(I, 'O', '_J_uo _J_do _geom_codes_o')
_add(R, 'W', '''_alpha_w _beta_w _chi_w _Hw _Qw _z_w _y_max_w _L_w _s_w _Cwr _Cwt _alpha_uwm _beta_dwl _chi_uwl _chi_dwm''')
_add(I, 'W', '_J_uw _J_dw')
_add(R, 'P', '''_alpha_p _beta_p _chi_p _Qp _z_p _dHp_max _dHp_min _a_p _b_p _c_p _alpha_upm _beta_dpl _chi_upl _chi_dpm''')
_add(I, 'P', '_J_up _J_dp')
_add(B, 'O', '_unidir_o')
_add(R, 'H', '_storage_hs _storage_As _storage_Vs')
_add(I, 'E', '_ellipse_ix')
_add(R, 'T', '_transect_zs _transect_As _transect_Bs _transect_Pes _transect_Rs')
_add(I, ('TC',), '_transect_inds _transect_lens')
_add(I, 'L', '_transect_codes')
_add(I, 'S', '_storage_js _storage_codes')
_add(I, 'C', '_storage_inds _storage_lens')

SCALARS = {'NK': ('dim', 'K'), 'M': ('dim', 'J'), 'NIk': ('dim', 'N'), 'Nik': ('dim', 'L'),
           'n_o': ('dim', 'O'), 'n_w': ('dim', 'W'), 'n_p': ('dim', 'P'),
           '_dt': (R,), 't': (R,), 'states.t': (R,), 'min_depth': (R,), 'iter_count': (I,), 'iter_elapsed': (I,),
           'inertial_damping': (B,), '_has_irregular': (B,), '_uk_has_irregular': (B,), '_dk_has_irregular': (B,)}
CONSTS = {'_storage_factory': None, '_storage_indices': None, '_bc_method': 'b', '_end_method': 'b', '_method': 'b', '_sparse': False, 'banded': False,
          'mobile_elements': False, '_exit_hydraulics': False}

FREE_INT = {'_Sf_method_ik': (0, 2), '_Sf_method_uk': (0, 2), '_Sf_method_dk': (0, 2)}
FREE_BOOL = ('_ctrl', 'bc', '_unidir_o')
SCALAR_GEN = {'_dt': lambda g: g.r.choice([1e-3, .5, 1., 10., 60., 300.]),
              't': lambda g: g.r.choice([0., 10., 3600.]), 'states.t': lambda g: g.r.choice([0., 10., 3600.]),
              'min_depth': lambda g: g.r.choice([1e-5, 1e-3, .1])}


# ---------------------------------------------------------------- class invariant
def _rng(q, x, n):
    return q.And(x >= 0, x < n)


# ('elem', attr, fn(q, a, i)) : holds for every index of attr
# ('def', attr, fn(q, a, i)) : attr[i] equals fn for every index (used as a rewrite rule)
# ('pair', attr, fn(q, a, i, j)) : holds for every two different indices
# ('fact', fn(q, a))
LAYOUT = [
    ('elem', 'nk', lambda q, a, k: a['nk'][k] >= 1),
    ('elem', '_I_1k', lambda q, a, k: q.And(a['_I_1k'][k] >= 0, a['_I_1k'][k] + a['nk'][k] < q.dim('N'))),
    ('elem', '_i_1k', lambda q, a, k: q.And(a['_i_1k'][k] >= 0, a['_i_1k'][k] + a['nk'][k] <= q.dim('L'))),
    ('def', '_I_2k', lambda q, a, k: a['_I_1k'][k] + 1),
    ('def', '_I_Nk', lambda q, a, k: a['_I_1k'][k] + a['nk'][k] - 1),
    ('def', '_I_Np1k', lambda q, a, k: a['_I_1k'][k] + a['nk'][k]),
    ('def', '_i_nk', lambda q, a, k: a['_i_1k'][k] + a['nk'][k] - 1),
    ('def', 'start_nodes', lambda q, a, k: a['_I_1k'][k]),
    ('def', 'end_nodes', lambda q, a, k: a['_I_1k'][k] + a['nk'][k]),
    ('pair', '_I_1k', lambda q, a, k, l: q.Or(a['_I_1k'][k] + a['nk'][k] < a['_I_1k'][l],
                                              a['_I_1k'][l] + a['nk'][l] < a['_I_1k'][k])),
    ('pair', '_i_1k', lambda q, a, k, l: q.Or(a['_i_1k'][k] + a['nk'][k] <= a['_i_1k'][l],
                                              a['_i_1k'][l] + a['nk'][l] <= a['_i_1k'][k])),
    ('def', '_ik', lambda q, a, i: i),
    ('elem', '_ki', lambda q, a, i: q.And(_rng(q, a['_ki'][i], q.dim('K')),
                                          a['_i_1k'][a['_ki'][i]] <= i,
                                          i < a['_i_1k'][a['_ki'][i]] + a['nk'][a['_ki'][i]])),
    ('def', '_Ik', lambda q, a, i: a['_I_1k'][a['_ki'][i]] + i - a['_i_1k'][a['_ki'][i]]),
    ('def', '_Ip1k', lambda q, a, i: a['_Ik'][i] + 1),
    ('elem', '_link_start', lambda q, a, i: q.Iff(a['_link_start'][i], q.same(a['_i_1k'][a['_ki'][i]], i))),
    ('elem', '_link_end', lambda q, a, i: q.Iff(a['_link_end'][i],
                                                q.same(a['_i_1k'][a['_ki'][i]] + a['nk'][a['_ki'][i]] - 1, i))),
    ('def', '_I', lambda q, a, i: i),
    ('elem', '_kI', lambda q, a, i: q.And(_rng(q, a['_kI'][i], q.dim('K')),
                                          a['_I_1k'][a['_kI'][i]] <= i,
                                          i <= a['_I_1k'][a['_kI'][i]] + a['nk'][a['_kI'][i]])),
    ('elem', '_is_start', lambda q, a, i: q.Iff(a['_is_start'][i], q.same(a['_I_1k'][a['_kI'][i]], i))),
    ('elem', '_I_start', lambda q, a, i: q.Iff(a['_I_start'][i], q.same(a['_I_1k'][a['_kI'][i]], i))),
    ('elem', '_is_end', lambda q, a, i: q.Iff(a['_is_end'][i],
                                              q.same(a['_I_1k'][a['_kI'][i]] + a['nk'][a['_kI'][i]], i))),
    ('elem', '_I_end', lambda q, a, i: q.Iff(a['_I_end'][i],
                                             q.same(a['_I_1k'][a['_kI'][i]] + a['nk'][a['_kI'][i]], i))),
    # link leaving junction I (not the last) / entering junction I (not the first)
    ('def', 'forward_I_i', lambda q, a, i: a['_i_1k'][a['_kI'][i]] + i - a['_I_1k'][a['_kI'][i]],
     lambda q, a, i: q.Not(q.same(a['_I_1k'][a['_kI'][i]] + a['nk'][a['_kI'][i]], i))),
    ('def', 'backward_I_i', lambda q, a, i: a['_i_1k'][a['_kI'][i]] + i - 1 - a['_I_1k'][a['_kI'][i]],
     lambda q, a, i: q.Not(q.same(a['_I_1k'][a['_kI'][i]], i))),
    ('elem', '_J_uk', lambda q, a, k: _rng(q, a['_J_uk'][k], q.dim('J'))),
    ('elem', '_J_dk', lambda q, a, k: _rng(q, a['_J_dk'][k], q.dim('J'))),
    ('elem', '_J_uo', lambda q, a, k: _rng(q, a['_J_uo'][k], q.dim('J'))),
    ('elem', '_J_do', lambda q, a, k: _rng(q, a['_J_do'][k], q.dim('J'))),
    ('elem', '_J_uw', lambda q, a, k: _rng(q, a['_J_uw'][k], q.dim('J'))),
    ('elem', '_J_dw', lambda q, a, k: _rng(q, a['_J_dw'][k], q.dim('J'))),
    ('elem', '_J_up', lambda q, a, k: _rng(q, a['_J_up'][k], q.dim('J'))),
    ('elem', '_J_dp', lambda q, a, k: _rng(q, a['_J_dp'][k], q.dim('J'))),
]
PHYS = [
    ('elem', '_dx_ik', lambda q, a, i: a['_dx_ik'][i] > 0),
    ('elem', '_R_ik', lambda q, a, i: a['_R_ik'][i] >= 0),
    ('elem', '_A_ik', lambda q, a, i: a['_A_ik'][i] >= 0),
    ('elem', '_n_ik', lambda q, a, i: a['_n_ik'][i] > 0),
    ('elem', '_Sf_method_ik', lambda q, a, i: q.And(a['_Sf_method_ik'][i] >= 0, a['_Sf_method_ik'][i] <= 2)),
    ('elem', '_Sf_method_uk', lambda q, a, i: q.And(a['_Sf_method_uk'][i] >= 0, a['_Sf_method_uk'][i] <= 2)),
    ('elem', '_Sf_method_dk', lambda q, a, i: q.And(a['_Sf_method_dk'][i] >= 0, a['_Sf_method_dk'][i] <= 2)),
    ('elem', '_sigma_ik', lambda q, a, i: q.And(a['_sigma_ik'][i] >= 0, a['_sigma_ik'][i] <= 1)),
    ('elem', 'max_depth', lambda q, a, i: a['max_depth'][i] >= 0),
    ('fact', lambda q, a: a['_dt'] > 0),
    ('fact', lambda q, a: a['min_depth'] > 0),
]
INVARIANT = LAYOUT + PHYS
