"""Runtime assertion checking: evaluates the contracts of /verif/contracts on real calls of the real
code (bounded side, failing-input search, replay).  Runs under /opt/venv/bin/python.

  rac.py --prop C08 --seed 1 --budget 20 --out x.json [--contracts a,b] [--only contract:scenario:seed:n]
"""
import argparse
import copy
import importlib
import json
import math
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
from models import Gen, literals, np, pd, REPO    # noqa
from contracts.base import REGISTRY, Sym          # noqa
from contracts import model, load                 # noqa
from pydv.spec import ConQ, conwrap, Skip, F      # noqa


def resolve(target):
    parts = target.split('.')
    m = importlib.import_module('pipedream_solver.' + parts[0])
    if len(parts) == 2:
        return None, getattr(m, parts[1])
    c = getattr(m, parts[1])
    return c, getattr(c, parts[2])


def schema_of(c):
    return c.schema or model


def locate(obj, nm):
    """(dictionary, key, object) holding the modelled attribute nm: 'x', 'states.x', 'sub.x', 'sub.states.x'"""
    while '.' in nm:
        pre, nm = nm.split('.', 1)
        if pre == 'states':
            st = getattr(obj, 'states', {})
            return st, nm, None
        obj = getattr(obj, pre)
    return obj.__dict__, nm, obj


def snap(obj, sch, extra=()):
    """copy of every modelled attribute of a real object"""
    out = {}
    for nm in list(sch.SCHEMA) + list(sch.SCALARS) + list(sch.CONSTS) + list(extra):
        try:
            d, key, o = locate(obj, nm)
            v = d[key] if key in d else getattr(o, key)
        except AttributeError:
            continue
        if isinstance(v, (pd.Series,)):
            v = np.asarray(v.values)
        out[nm] = copy.copy(v)
    return out


class Dims(dict):
    def __missing__(self, k):
        raise Skip()


def dims_of(snapv, sch):
    d = Dims()
    for nm, sp in sch.SCALARS.items():
        if sp[0] == 'dim' and nm in snapv:
            d[sp[1]] = int(snapv[nm])
    for nm, (k, dd) in sch.SCHEMA.items():
        if nm in snapv and isinstance(snapv[nm], np.ndarray) and snapv[nm].ndim == len(dd):
            for n, x in zip(snapv[nm].shape, dd):
                if isinstance(x, str):
                    d.setdefault(x, n)
    return d


def snap_get(s):
    def get(k):
        if k not in s:
            raise Skip()
        return s[k]
    return get


class A:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if k not in self.s:
            raise KeyError(k)
        return conwrap(self.s[k])


def facts_of(c, s, sch):
    fs = list(c.facts) + list(s.get('facts', []))
    if c.is_method:
        fs = list(sch.INVARIANT) + fs
    return fs


def fact_ok(f, q, a, n=None):
    """True / False / None (not evaluable)"""
    try:
        if f[0] == 'fact':
            return bool(f[1](q, a))
        arr = a[f[1]]
        m = arr.shape[0]
        if f[0] in ('elem', 'def'):
            import itertools
            for i in itertools.product(*[range(x) for x in arr.shape]):
                v = f[2](q, a, *i)
                if f[0] == 'def':
                    v = q.same(arr[i if len(i) > 1 else i[0]], v) if len(f) < 4 or bool(f[3](q, a, *i)) else True
                if not bool(v):
                    return False
            return True
        if f[0] == 'near':
            return all(bool(f[3](q, a, i, h)) for i in range(m) for h in range(q.dims[f[2]]))
        for i in range(m):
            for j in range(m):
                if i != j and not bool(f[2](q, a, i, j)):
                    return False
        return True
    except (KeyError, Skip):
        return None


def gen_value(g, spec, dims, shapes=None):
    if isinstance(spec, Sym):
        sh = []
        for d in spec.dims:
            if isinstance(d, int):
                sh.append(d)
            else:
                if d not in dims:
                    dims[d] = g.r.randint(1, 5)
                sh.append(dims[d])

        def one():
            if spec.kind == 'real':
                return g.real()
            if spec.kind == 'int':
                return g.r.randint(0, 12)
            return g.r.random() < .5
        if not sh:
            return one()
        n = int(np.prod(sh))
        a = np.array([one() for _ in range(n)], dtype={'real': np.float64, 'int': np.int64, 'bool': np.bool_}[spec.kind])
        return a.reshape(sh)
    if isinstance(spec, tuple) and spec and spec[0] == 'tuple':
        return tuple(gen_value(g, x, dims) for x in spec[1:])
    if isinstance(spec, dict):
        return {k: gen_value(g, v, dims) for k, v in spec.items()}
    return spec


class Run:
    def __init__(self, prop, seed, budget, only=None, verbose=False):
        self.prop, self.seed, self.budget, self.only = prop, seed, budget, only
        self.fails = []
        self.stats = {}
        self.errors = {}
        self.samples = []
        self.verbose = verbose
        self.lits = literals('nsuperlink', 'superlink', 'ngeometry', 'geometry', 'storage', 'nquality',
                             'infiltration', 'utils', 'simulation', 'ninfiltration')

    def note(self, c, s, q, info):
        key = c.name
        st = self.stats.setdefault(key, {'calls': 0, 'obligations': {}, 'unmet': 0, 'nontrivial': 0})
        st['calls'] += 1
        n0 = 0
        for k, v in q.checked.items():
            st['obligations'][k] = st['obligations'].get(k, 0) + v
            n0 += v
        if n0:
            st['nontrivial'] += 1
            if len(self.samples) < 6 and st['calls'] <= 2:
                self.samples.append({'contract': c.name, 'scenario': s['name'], 'at': info,
                                     'obligations_evaluated': {k: v for k, v in q.checked.items() if v}})
        for nm, idx in q.fails[:3]:
            if sum(1 for f in self.fails if f['contract'] == c.name and f['obligation'] == nm) < 3:
                self.fails.append({'contract': c.name, 'target': c.target, 'scenario': s['name'], 'obligation': nm,
                                   'index': list(idx), 'at': info})

    def evaluate(self, c, s, old, new, args, newargs, ret, info, extra_new=None):
        sch = schema_of(c)
        dims = dims_of(old, sch) if c.is_method else Dims(args.get('__dims__', {}))
        q = ConQ(old, new, args, ret, dims, rtol=c.rtol, atol=c.atol, seed=self.seed, newargs=newargs)
        q.old.fn = lambda k, s=old: conwrap(snap_get(s)(k))
        live = info.get('_obj')
        q.new.fn = lambda k, s=new: conwrap(getattr(live, k) if k not in s and live is not None and hasattr(live, k) else snap_get(s)(k))
        q.scenario = s['name']
        q.obj = info.get('_obj')
        try:
            c.post(q)
        except Skip:
            pass
        inf = {k: v for k, v in info.items() if not k.startswith('_')}
        self.note(c, s, q, inf)
        if q.fails and len(self.fails) <= 6:
            f = self.fails[-1]
            if 'args' not in f:
                f['args'] = {k: js(v) for k, v in args.items() if not k.startswith('__')}
                f['old'] = {k: js(v) for k, v in old.items()}
                f['new'] = {k: js(new[k]) for k in old if k in new and not same(old[k], new[k])}
                f['ret'] = js(ret)
        return q

    # ------------------------------------------------------------ function contracts
    def fn_contract(self, c, t_end):
        _, fn = resolve(c.target)
        n = 0
        while True:
            for si, s in enumerate(c.scenarios):
                seed = self.seed * 1000003 + n * 101 + si
                if self.only and (self.only['seed'] != seed or self.only['scenario'] != s['name']):
                    if n > 200000:
                        return
                    continue
                self.fn_once(c, s, fn, seed)
                if self.only:
                    return
            n += 1
            if not self.only and (time.time() > t_end or n > 4000):
                return

    def fn_once(self, c, s, fn, seed):
        g = Gen(seed, self.lits)
        dims = {}
        for d, v in list(c.dims.items()) + list(s.get('dims', {}).items()):
            if isinstance(v, int) and not isinstance(v, bool):
                dims[d] = v
            elif isinstance(v, tuple):
                dims[d] = g.r.randint(v[0], v[1] if len(v) > 1 else v[0] + 4)
        spec = {**(c.params or {}), **s.get('args', {})}
        st = self.stats.setdefault(c.name, {'calls': 0, 'obligations': {}, 'unmet': 0, 'nontrivial': 0})
        if c.gen:
            args = c.gen(g, s, np)
            if args is None:
                st['unmet'] += 1
                return
            for k, v in spec.items():
                if k not in args and not isinstance(v, Sym):
                    args[k] = v
            for k, v in spec.items():
                if isinstance(v, Sym):
                    for d, m in zip(v.dims, getattr(args.get(k), 'shape', ())):
                        if isinstance(d, str):
                            dims[d] = m
        else:
            for attempt in range(60):
                d2 = dict(dims)
                args = {k: gen_value(g, v, d2) for k, v in spec.items()}
                if self.facts_hold(c, s, args, d2):
                    dims = d2
                    break
            else:
                st['unmet'] += 1
                return
        if c.gen and not self.facts_hold(c, s, args, dims):
            st['unmet'] += 1
            return
        self.fn_run(c, s, fn, args, dims, {'seed': seed})

    def fn_run(self, c, s, fn, args, dims, info):
        old = {k: copy.deepcopy(v) for k, v in args.items()}
        call = {k: v for k, v in args.items() if not k.startswith('__')}
        try:
            ret = c.call(fn, call) if c.call else fn(*[v for k, v in call.items() if not k.startswith('kw_')],
                                                     **{k[3:]: v for k, v in call.items() if k.startswith('kw_')})
        except Exception as e:
            self.error(c, s, e, info)
            return
        old['__dims__'] = dims
        self.evaluate(c, s, {k: v for k, v in old.items() if k != '__dims__'},
                      {k: v for k, v in args.items() if k != '__dims__'}, old, args, ret, info)

    def given(self, items):
        """arguments of the verifier's counter-examples, on the real functions"""
        load(self.prop)
        for it in items:
            c = REGISTRY[it['contract']]
            s = next(x for x in c.scenarios if x['name'] == it['scenario'])
            spec = {**(c.params or {}), **s.get('args', {})}
            dims, args = {}, {}
            for k, v in spec.items():
                w = it['args'].get(k, v)
                if isinstance(w, dict) and 'values' in w:
                    for d, m in zip(v.dims, w['shape']):
                        if isinstance(d, str):
                            dims[d] = m
                    w = np.array(w['values'], dtype={'real': np.float64, 'int': np.int64, 'bool': np.bool_}[w['kind']]).reshape(w['shape'])
                elif isinstance(v, Sym) and v.kind == 'real':
                    w = float(w)
                args[k] = w
            if not self.facts_hold(c, s, args, dims):
                continue
            self.fn_run(c, s, resolve(c.target)[1], args, dims, {'inputs': it})

    def facts_hold(self, c, s, args, dims):
        q = ConQ(lambda k: args[k], lambda k: args[k], args, None, Dims(dims))
        a = A(args)
        for f in facts_of(c, s, None):
            if fact_ok(f, q, a) is False:
                return False
        return True

    def error(self, c, s, e, info):
        k = '%s: %s' % (c.name, type(e).__name__)
        if k not in self.errors:
            self.errors[k] = {'count': 0, 'message': str(e)[:300], 'at': info,
                              'trace': ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])[-1500:]}
        self.errors[k]['count'] += 1
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        own = os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(os.path.abspath(REPO), 'pipedream_solver'))
        broken = own and isinstance(e, (KeyError, IndexError, TypeError, NameError, NotImplementedError))     # raised by the code itself
        if c.noraise is True or broken or c.noraise == 'bug' and isinstance(e, (KeyError, IndexError, AttributeError, TypeError, NameError)):
            if sum(1 for f in self.fails if f['contract'] == c.name and f['obligation'] == 'no-raise') < 3:
                self.fails.append({'contract': c.name, 'target': c.target, 'scenario': s['name'],
                                   'obligation': 'no-raise', 'index': [], 'at': info,
                                   'exception': '%s: %s' % (type(e).__name__, str(e)[:300])})

    # ------------------------------------------------------------ method contracts
    def randomise(self, g, obj, sch, c, s, keep=()):
        """random values in every real-valued modelled array (and a few flags), respecting the facts"""
        free_int = getattr(sch, 'FREE_INT', {})
        free_bool = getattr(sch, 'FREE_BOOL', ())
        fs = {}
        for f in facts_of(c, s, sch):
            if f[0] == 'elem':
                fs.setdefault(f[1], []).append(f)
        for nm, (k, dd) in sch.SCHEMA.items():
            tgt, key, _ = locate(obj, nm)
            if key not in tgt or not isinstance(tgt[key], np.ndarray) or nm in keep:
                continue
            a = tgt[key]
            if k == 'real' and a.dtype.kind == 'f':
                b = np.array([g.real() for _ in range(a.size)]).reshape(a.shape)
                if g.r.random() < .15:
                    b = np.abs(b)
            elif k == 'int' and nm in free_int:
                lo, hi = free_int[nm]
                b = np.array([g.r.randint(lo, hi) for _ in range(a.size)], dtype=a.dtype).reshape(a.shape)
            elif k == 'bool' and nm in free_bool:
                b = np.array([g.r.random() < .4 for _ in range(a.size)], dtype=a.dtype).reshape(a.shape)
            else:
                continue
            tgt[key] = b
        # elementwise repair
        sn = snap(obj, sch)
        q = ConQ(lambda k: sn[k], lambda k: sn[k], {}, None, dims_of(sn, sch))
        aa = A(sn)
        for nm, fl in fs.items():
            tgt, key, _ = locate(obj, nm)
            if key not in tgt or not isinstance(tgt[key], np.ndarray) or tgt[key].dtype.kind not in 'f':
                continue
            arr = tgt[key]
            import itertools
            for i in itertools.product(*[range(x) for x in arr.shape]):
                for attempt in range(40):
                    try:
                        if all(bool(f[2](q, aa, *i)) for f in fl):
                            break
                    except (KeyError, Skip):
                        break
                    arr[i] = abs(g.real()) if attempt < 20 else g.r.random()
                    sn[nm] = arr
        for f in getattr(sch, 'SCALAR_GEN', {}).items():
            tgt, key, o = locate(obj, f[0])
            if key in tgt or o is None:
                tgt[key] = f[1](g)

    def method_once(self, c, s, seed):
        g = Gen(seed, self.lits)
        sch = schema_of(c)
        st = self.stats.setdefault(c.name, {'calls': 0, 'obligations': {}, 'unmet': 0, 'nontrivial': 0})
        cls, fn = resolve(c.target)
        dims = s.get('dims', {})
        over = {}
        for d in 'OWP':
            v = dims.get(d, c.dims.get(d))
            if isinstance(v, int) and not isinstance(v, bool):
                over['n_' + d.lower()] = v
            elif v == 'pos':
                over['n_' + d.lower()] = g.r.randint(1, 3)
        mk = getattr(sch, 'make', None)
        obj = mk(g, cls, s, over, c) if mk else g.model(cls, **over, **s.get('model', {}))
        if obj is None:
            st['unmet'] += 1
            return
        direct = True if c.group == 'direct' else (False if c.group == 'natural' else g.r.random() < .75)
        if direct:
            self.randomise(g, obj, sch, c, s, keep=s.get('keep', ()))
        for nm, sp in s.get('attrs', {}).items():
            if isinstance(sp, Sym):
                if sp.dims or not hasattr(obj, nm):
                    dd = dict(dims_of(snap(obj, sch), sch))
                    obj.__dict__[nm] = gen_value(g, sp, dd)
            elif isinstance(sp, dict) or (isinstance(sp, tuple) and sp[:1] == ('tuple',)):
                pass
            else:
                obj.__dict__[nm] = sp
        if s.get('prepare'):
            try:
                s['prepare'](g, obj, np)
            except Exception as e:
                self.error(c, s, e, {'seed': seed, 'mode': 'prepare'})
                return
        pre = snap(obj, sch, s.get('attrs', {}))
        dd = dict(dims_of(pre, sch))
        q0 = None
        for attempt in range(30):
            args = {}
            for k, v in {**(c.params or {}), **s.get('args', {})}.items():
                args[k] = gen_value(g, v, dd)
            if c.gen:
                args = c.gen(g, s, np, obj, args)
            old = dict(pre)
            for k, v in args.items():
                old['arg.' + k] = copy.deepcopy(v)
            q0 = ConQ(lambda k: old[k], lambda k: old[k], args, None, Dims(dd))
            a = A(old)
            bad = [f for f in facts_of(c, s, sch) if fact_ok(f, q0, a) is False]
            if not bad:
                break
            if not any('arg' in str(getattr(f[-1], '__code__', None) and f[-1].__code__.co_consts) for f in bad):
                break
        if bad:
            st['unmet'] += 1
            st.setdefault('unmet_facts', {})
            for f in bad:
                n = str(f[1]) if len(f) > 2 else 'fact'
                st['unmet_facts'][n] = st['unmet_facts'].get(n, 0) + 1
            return
        self.call_and_check(c, s, sch, obj, fn, args, old, pre, {'seed': seed, 'mode': 'direct' if direct else 'model'})

    def call_and_check(self, c, s, sch, obj, fn, args, old, pre, info):
        oldargs = {k: copy.deepcopy(v) for k, v in args.items()}
        try:
            ret = c.call(obj, args) if c.call else fn(obj, **args)
        except Exception as e:
            self.error(c, s, e, info)
            return
        post = snap(obj, sch, s.get('attrs', {}))
        for k, v in args.items():
            post['arg.' + k] = v
        info['_obj'] = obj
        self.evaluate(c, s, old, post, oldargs, args, ret, info)

    def method_contract(self, c, t_end):
        n = 0
        while True:
            for si, s in enumerate(c.scenarios):
                seed = self.seed * 1000003 + n * 101 + si
                if self.only:
                    if self.only['scenario'] != s['name']:
                        continue
                    seed = self.only['seed']
                try:
                    self.method_once(c, s, seed)
                except Skip:
                    pass
                if self.only:
                    return
                if time.time() > t_end and n > 0:
                    return
            n += 1
            if time.time() > t_end or n > 3000:
                return

    def go(self, contracts):
        load(self.prop)
        cs = [c for c in REGISTRY.values() if (c.prop == self.prop or self.prop in c.uses)
              and (not contracts or c.name in contracts)]
        for c in cs:
            try:
                resolve(c.target)
            except Exception:
                pass
        per = self.budget / max(1, len(cs))
        for c in cs:
            t_end = time.time() + per
            try:
                resolve(c.target)
            except (AttributeError, ImportError) as e:
                self.errors['%s: missing' % c.name] = {'count': 1, 'message': str(e)}
                continue
            try:
                if c.rac == 'none':
                    continue
                elif c.rac:
                    c.rac(self, c, t_end)
                elif c.is_method:
                    self.method_contract(c, t_end)
                else:
                    self.fn_contract(c, t_end)
            except Exception as e:
                self.errors['%s: harness %s' % (c.name, type(e).__name__)] = {
                    'count': 1, 'message': str(e)[:300], 'trace': traceback.format_exc()[-1500:]}


def same(a, b):
    try:
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))
    except Exception:
        return False


def js(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, np.ndarray):
        if v.size > 400:
            return {'shape': list(v.shape), 'head': js(v.ravel()[:50])}
        return [js(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v]
    if isinstance(v, dict):
        return {str(k): js(x) for k, x in v.items()}
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v if math.isfinite(v) else repr(v)
    if v is None or isinstance(v, str):
        return v
    return repr(v)[:200]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--out')
    ap.add_argument('--contracts', default='')
    ap.add_argument('--scenario')
    ap.add_argument('--one', type=int)
    ap.add_argument('--inputs')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    only = {'scenario': a.scenario, 'seed': a.one} if a.one is not None else None
    t = time.time()
    R = Run(a.prop, a.seed, a.budget, only, a.v)
    if a.inputs:
        with open(a.inputs) as f:
            d = json.load(f)
        R.given(d['inputs'] if isinstance(d, dict) else d)
    else:
        R.go([x for x in a.contracts.split(',') if x])
    out = {'prop': a.prop, 'seed': a.seed, 'fails': R.fails, 'stats': R.stats, 'errors': R.errors,
           'samples': R.samples, 'wall_s': time.time() - t}
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, default=repr)
    else:
        print(json.dumps({k: v for k, v in out.items() if k != 'fails'}, indent=1, default=repr)[:6000])
        print(json.dumps(R.fails, indent=1, default=repr)[:6000])


if __name__ == '__main__':
    main()
