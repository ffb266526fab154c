import os
import sys
import warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
np.seterr(all='ignore')
G = 9.81


def links(pairs, **kw):
    n = len(pairs)
    d = dict(id=range(n), name=['k%d' % i for i in range(n)], sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs],
             in_offset=0., out_offset=0., C_uk=.67, C_dk=.67, dx=100., n=.02, shape='rect_open', g1=3., g2=2., g3=0., g4=0.,
             Q_0=0., h_0=.5, A_s=1., ctrl=False, A_c=.5, C=.6)
    d.update(kw)
    return pd.DataFrame(d)


def junctions(z, bc=(), **kw):
    n = len(z)
    d = dict(id=range(n), name=['j%d' % i for i in range(n)], z_inv=list(map(float, z)), h_0=.5,
             bc=[i in bc for i in range(n)], storage='functional', a=0., b=0., c=10., max_depth=np.inf)
    d.update(kw)
    return pd.DataFrame(d)


def model(sl, sj, **kw):
    from pipedream_solver.nsuperlink import nSuperLink
    kw.setdefault('internal_links', 4)
    return nSuperLink(sl, sj, **kw)


def close(a, b, what='', tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if not np.allclose(a, b, rtol=tol, atol=1e-9, equal_nan=True):
        print('FAIL', what, a, b)
        sys.exit(1)
