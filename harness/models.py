"""Random model generation for the runtime (bounded) side of the contracts.  Runs under /opt/venv."""
import ast
import math
import os
import random
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['NUMBA_DISABLE_JIT'] = '1'
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np          # noqa
import pandas as pd         # noqa
np.seterr(all='ignore')

SHAPES = ['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'parabolic', 'elliptical',
          'wide', 'force_main', 'floodplain']
REGULAR = ['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'force_main']


def literals(*modules):
    """numeric constants in the current source, used as a dictionary of interesting values"""
    out = set()
    for m in modules:
        p = os.path.join(REPO, 'pipedream_solver', m + '.py')
        try:
            t = ast.parse(open(p).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if abs(n.value) < 1e7:
                    out.add(float(n.value))
    return sorted(out)


class Gen:
    def __init__(self, seed, lits=()):
        self.r = random.Random(seed)
        self.np = np.random.RandomState(seed % (2 ** 31))
        self.lits = [x for x in lits if x != 0 and math.isfinite(x)]

    def real(self):
        r = self.r
        u = r.random()
        if u < 0.12:
            return 0.0
        if u < 0.55:
            return r.uniform(0.05, 3.0)
        if u < 0.70:
            return -r.uniform(0.05, 3.0)
        if u < 0.80:
            return r.choice([-1, 1]) * 10 ** r.uniform(-4, 3)
        if u < 0.93 and self.lits:
            c = r.choice(self.lits)
            return r.choice([c, c * 1.01, c * 0.99, c * 1.5, c + 0.5, -c])
        return r.choice([1.0, 0.5, 2.0, 10.0, 100.0, 1000.0])

    def network(self, J=None, K=None, storage='functional', shapes=None, n_o=None, n_w=None, n_p=None, tables=False, zero=False, ends=False):
        r = self.r
        J = J or r.randint(2, 5)
        K = K or r.randint(1, 4)
        shapes = shapes or REGULAR
        z = sorted([r.uniform(0, 4) for _ in range(J)], reverse=True)
        sj = pd.DataFrame(dict(id=range(J), name=['j%d' % i for i in range(J)], z_inv=z,
                               h_0=[r.choice([1e-2, .5, 1.5]) for _ in range(J)],
                               bc=[(i == J - 1) and r.random() < .8 or r.random() < .1 for i in range(J)],
                               storage=storage, a=[r.choice([0., 1.5]) for _ in range(J)],
                               b=[r.choice([0., 1., .5]) for _ in range(J)],
                               c=[r.uniform(.5, 20.) for _ in range(J)],
                               max_depth=[r.choice([np.inf, r.uniform(2, 8)]) for _ in range(J)]))
        pairs = []
        for k in range(K):
            a = r.randint(0, J - 2)
            b = r.randint(a + 1, J - 1)
            pairs.append((a, b))
        sl = pd.DataFrame(dict(id=range(K), name=['k%d' % i for i in range(K)],
                               sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs],
                               in_offset=[r.choice([0., .2]) for _ in range(K)],
                               out_offset=[r.choice([0., .2]) for _ in range(K)],
                               C_uk=.67, C_dk=.67, dx=[r.uniform(20, 300) for _ in range(K)],
                               n=[r.uniform(.01, .05) for _ in range(K)],
                               shape=[r.choice(shapes) for _ in range(K)],
                               g1=[r.uniform(.5, 3) for _ in range(K)], g2=[r.uniform(.5, 3) for _ in range(K)],
                               g3=[r.uniform(.2, 2) for _ in range(K)], g4=[r.uniform(.2, 2) for _ in range(K)],
                               Q_0=0., h_0=[r.choice([1e-2, .2]) for _ in range(K)],
                               A_s=[r.choice([1e-2, 1., 0.]) for _ in range(K)],
                               ctrl=[r.random() < .3 for _ in range(K)],
                               A_c=[r.uniform(.1, 1) for _ in range(K)], C=[r.uniform(.3, .9) for _ in range(K)]))
        kw = {}
        for i in (5, 6, 7):
            sl['g%d' % i] = [r.uniform(.2, 2) for _ in range(K)]
        if ends:
            sl['dx_uk'] = [r.choice([.5, 2., 10.]) for _ in range(K)]
            sl['dx_dk'] = [r.choice([.5, 2., 10.]) for _ in range(K)]
        if zero:
            for c, w in (('circular', 'g2'), ('rect_closed', 'g3'), ('force_main', 'g2')):
                sl.loc[(sl['shape'] == c) & [r.random() < .5 for _ in range(K)], w] = 0.
        if 'irregular' in shapes:
            if 'irregular' not in set(sl['shape']):
                sl.loc[r.randrange(K), 'shape'] = 'irregular'
            only = set(shapes) == {'irregular'}
            names = r.sample(['tr_a', 'tr_b', 'tr_c'], r.randint(2 if only else 1, 3))
            alike = r.choice([2, 3, 6, 11]) if only and r.random() < .5 else None
            sl['transect'] = [r.choice(names) if s == 'irregular' else r.choice(['', names[0]]) for s in sl['shape']]
            kw['transects'] = {}
            for nm in names:
                x = np.cumsum([0.] + [r.uniform(.3, 2) for _ in range(r.randint(3, 6))])
                y = np.array([r.uniform(.5, 4) for _ in x])
                y -= y[1:-1].min()
                y = np.abs(y)
                y[r.randrange(1, len(y) - 1)] = 0.
                y[0], y[-1] = max(y[0], 1.), max(y[-1], 1.)
                kw['transects'][nm] = {'x': x, 'y': y, 'sample_points': alike or r.choice([2, 3, 6, 11])}
        if tables:
            names = r.sample('pqrstuvw', r.randint(1, 3))
            use = names + [r.choice(names) for _ in range(J)]
            tab = [use[j] if j < len(names) or r.random() < .5 else None for j in range(J)]
            if len(names) > J:
                names = names[:J]
            order = list(range(J))
            r.shuffle(order)
            tab = [tab[j] for j in order]
            sj['storage'] = ['tabular' if t else r.choice(['functional', 'Functional']) for t in tab]
            if r.random() < .3:                         # a table named where none is used, tables that nothing uses
                tab = [t or r.choice([None, 'spare', names[0]]) for t in tab]
                names = names + ['spare']
                r.shuffle(names)
            sj['table'] = tab
            st = {}
            for nm in names:
                m = r.randint(2, 5)
                h = np.cumsum([r.choice([0., .1])] + [r.uniform(.2, 2) for _ in range(m - 1)])
                a = np.cumsum([r.uniform(0, 5)] + [r.choice([0., r.uniform(0, 5)]) for _ in range(m - 1)])
                if tables == 'any' and r.random() < .4:
                    a = a[::-1].copy()
                st[nm] = {'h': h, 'A': a}
            kw['storages'] = st
        n_o = r.choice([0, 0, 1, 2]) if n_o is None else n_o
        n_w = r.choice([0, 0, 1, 2]) if n_w is None else n_w
        n_p = r.choice([0, 0, 1, 2]) if n_p is None else n_p

        def ends(n):
            es = []
            for _ in range(n):
                a = r.randint(0, J - 2)
                es.append((a, r.randint(a + 1, J - 1)))
            return es
        if n_o:
            e = ends(n_o)
            kw['orifices'] = pd.DataFrame(dict(id=range(n_o), name=['o%d' % i for i in range(n_o)], sj_0=[x[0] for x in e], sj_1=[x[1] for x in e],
                                               A=[r.uniform(.1, 1) for _ in e], orientation=[r.choice(['side', 'bottom']) for _ in e],
                                               z_o=[r.uniform(0, .5) for _ in e], y_max=[r.uniform(.2, 1) for _ in e],
                                               C=.6, oneway=[r.random() < .3 for _ in e], shape=[r.choice(['rect_closed', 'circular']) for _ in e],
                                               g1=[r.uniform(.3, 1) for _ in e], g2=[r.uniform(.3, 1) for _ in e], g3=0., g4=0.))
        if n_w:
            e = ends(n_w)
            kw['weirs'] = pd.DataFrame(dict(id=range(n_w), name=['w%d' % i for i in range(n_w)], sj_0=[x[0] for x in e], sj_1=[x[1] for x in e],
                                            z_w=[r.uniform(0, .5) for _ in e], y_max=[r.uniform(.2, 1) for _ in e],
                                            Cr=1.838, Ct=1.38, L=[r.uniform(.3, 2) for _ in e], s=[r.uniform(0, 1) for _ in e]))
        if n_p:
            e = ends(n_p)
            kw['pumps'] = pd.DataFrame(dict(id=range(n_p), name=['p%d' % i for i in range(n_p)], sj_0=[x[0] for x in e], sj_1=[x[1] for x in e],
                                            z_p=[r.uniform(0, .5) for _ in e], a_p=[r.uniform(3, 8) for _ in e],
                                            b_p=[r.uniform(.3, 2) for _ in e], c_p=[r.choice([1., 2., 1.5]) for _ in e], dH_min=[r.uniform(.1, 1) for _ in e],
                                            dH_max=[r.uniform(1, 3) for _ in e]))
        return sl, sj, kw

    def model(self, cls=None, **over):
        from pipedream_solver.nsuperlink import nSuperLink
        cls = cls or nSuperLink
        net = {k: over.pop(k) for k in list(over) if k in ('J', 'K', 'storage', 'shapes', 'n_o', 'n_w', 'n_p', 'tables', 'zero', 'ends')}
        sl, sj, kw = self.network(**net)
        opts = dict(internal_links=self.r.randint(1, 5), inertial_damping=self.r.random() < .5,
                    bc_method='z', dt=self.r.choice([1., 5., 30.]))
        opts.update(over)
        return cls(sl, sj, **kw, **opts)
