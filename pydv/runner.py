"""Symbolic side: interpret the real function body under a contract's preconditions and discharge
every obligation of its postcondition."""
import itertools
import time
import traceback
import z3
from .core import *
from .core import conc
from . import loader as L
from .interp import Interp
from . import extern
from .prove import Prover, Result
from .spec import SymQ, SymArr, V, unw
from contracts.base import Sym, Fn
from contracts import model


class Attrs:
    """read access to the initial values, for facts"""
    def __init__(self, get):
        self.get = get

    def __getitem__(self, k):
        return self.get(k)


def source(v):
    """identity of the memory behind an array value, if known"""
    b = v.base if isinstance(v, View) else v
    return b.id if isinstance(b, Arr) else None


class Task:
    def __init__(self, contract, scenario, ld=None, timeout=None, budget=None):
        self.c, self.s = contract, scenario
        self.ld = ld or L.Loader()
        self.eng = Engine()
        from . import summaries as S
        sm = {}
        for n, x in dict(contract.summaries).items():
            sm[n] = S.NAMED[x] if isinstance(x, str) else S.by_contract(*x[1:]) if x[0] == 'contract' else S.havoc(*x)
        self.it = Interp(self.eng, self.ld, summaries=sm)
        self.it.opaque = contract.opaque
        for nm, inv in contract.invariants.items():
            self.it.invariants[nm] = {k: self.loop_inv(fn) for k, fn in inv.items()}
        self.timeout = timeout or contract.timeout
        self.budget = budget or contract.budget
        self.dims = {}
        self.init = {}        # name -> SymArr / V of initial values
        self.st = State()
        self.obls = []
        self.arrs = {}

    def loop_inv(self, fn):
        class E:
            def __init__(self, env):
                self.env = env

            def __getitem__(self, nm):
                return V(self.env[nm])

            def before(self, nm):
                return V(self.env.before(nm))

        def run(env):
            q = SymQ(self.it, lambda k: self.init[k], None, self.args, None, self.dims)
            return [(nm, truth(unw(c))) for nm, c in fn(q, E(env))]
        return run

    # ---------------------------------------------------------------- set up
    def dim(self, d):
        if not isinstance(d, str):
            return d
        if d not in self.dims:
            over = self.s.get('dims', {}).get(d, self.c.dims.get(d))
            lo = model.DIMS.get(d, 0)
            if isinstance(over, int) and not isinstance(over, bool):
                self.dims[d] = over
                return over
            if over == 'pos':
                lo = 1
            elif isinstance(over, tuple):
                lo = over[0]
            v = z3.Int('dim_' + d)
            self.dims[d] = v
            self.eng.base_facts.append(v >= lo)
        return self.dims[d]

    def mk_array(self, name, knd, dims):
        shape = tuple(self.dim(d) for d in dims)
        f = z3.Function('in_' + name, *([INT] * len(shape) + [SORTS[knd]]))
        content = Fun(lambda idx, f=f: f(*[tz(i, 'int') for i in idx]))
        a = Arr(knd, shape, name)
        self.st.heap[a.id] = content
        self.init[name] = SymArr(None, content.read, shape, knd, a.id)
        self.arrs[name] = (f, shape, knd, a)
        return a

    def mk_value(self, name, spec):
        """python const | Sym"""
        if isinstance(spec, Sym):
            if spec.dims:
                return self.mk_array(name, spec.kind, spec.dims)
            v = z3.Const('in_' + name, SORTS[spec.kind])
            self.init[name] = V(v)
            return v
        if isinstance(spec, dict):
            return SDict(self.st, [(k, self.mk_value(name + '.' + k, x)) for k, x in spec.items()])
        if isinstance(spec, tuple) and spec and spec[0] == 'deque':
            n = self.mk_value(name + '.n', Sym('int'))
            self.eng.base_facts.extend([n >= 0, n <= SDeque.MAX])
            return SDeque(self.st, [self.mk_value('%s.%d' % (name, j), spec[1]) for j in range(SDeque.MAX)], n)
        if isinstance(spec, Fn):
            def app(it, args, kw, st, f=z3.Function('fn_' + spec.name, REAL, REAL)):
                return f(tz(it.cast(args[0], 'real')))
            app._pydv = True
            self.init[name] = app
            return app
        if isinstance(spec, float):
            from fractions import Fraction as Fr
            spec = Fr(repr(spec))
        if is_num(spec):
            self.init[name] = V(spec)
        elif isinstance(spec, tuple) and spec and spec[0] == 'tuple':
            return tuple(self.mk_value('%s.%d' % (name, j), x) for j, x in enumerate(spec[1:]))
        else:
            self.init[name] = spec
        return spec

    def setup(self):
        c, s, st = self.c, self.s, self.st
        self.eng.pair_limit = s.get('pair_limit', 12)
        self.selfobj = None
        self.nested = {}
        if c.is_method:
            mod, cls, meth = c.target.split('.')
            cref = self.ld.cls(mod + '.' + cls)
            if cref is None:
                raise Unsupported('class %s not found' % cls)
            o = SObj(cref)
            self.selfobj = o
            d = st.objs.setdefault(o.id, {})
            schema = c.schema or model
            over = s.get('attrs', {})
            for pre, cn in getattr(schema, 'NESTED', {}).items():
                sub = SObj(self.ld.cls(cn) if cn else None)
                st.objs.setdefault(sub.id, {})
                if pre in s.get('without', ()):
                    d[pre] = None
                    continue
                self.put(pre, sub)
                self.nested[pre] = sub
            for nm, (k, dims) in schema.SCHEMA.items():
                if nm in over or nm.split('.')[0] in s.get('without', ()):
                    continue
                self.put(nm, self.mk_array(nm, k, dims))
            for nm, sp in schema.SCALARS.items():
                if nm in over:
                    continue
                v = self.dim(sp[1]) if sp[0] == 'dim' else self.mk_value(nm, Sym(sp[0]))
                if sp[0] == 'dim':
                    self.init[nm] = V(v)
                self.put(nm, v)
            for nm, v in schema.CONSTS.items():
                if nm not in over:
                    self.put(nm, v)
                    self.init[nm] = V(v) if is_num(v) else v
            for nm, sp in over.items():
                self.put(nm, self.mk_value(nm, sp))
        if c.owned:
            own = {nm: a for nm, a in c.owned.items() if nm != 'over'}

            def dim_of(i):
                for f, shape, knd, a in self.arrs.values():
                    if a.id == i:
                        for nm in own:
                            if len(shape) >= 1 and same(shape[0], self.dim(nm)):
                                return nm, shape
                raise Unsupported('loop over superlinks writes an array of another kind')

            def owner(pre, i):
                nm, _ = dim_of(i)
                return lambda idx: idx[0] if own[nm] is None else unw(self.init[own[nm]][V(idx[0])])

            def inside(pre, i, g):
                return b_and(*[b_and(cmp('>=', x, 0), cmp('<', x, n)) for x, n in zip(g, dim_of(i)[1])])
            self.it.owned = (self.dim(c.owned['over']), owner, inside)
        self.args = {}
        for nm, sp in {**(c.params or {}), **s.get('args', {})}.items():
            self.args[nm] = self.mk_value(nm if not c.is_method else 'arg_' + nm, sp)
            if c.is_method and ('arg_' + nm) in self.init:
                self.init['arg.' + nm] = self.init['arg_' + nm]
        if c.stages:
            from .stages import Stages
            self.it.stages = Stages(self, c.stages)
            self.it.stages.setup()
        self.factq = SymQ(self.it, None, None, self.args, None, self.dims)
        self.factq.dim = lambda d: V(self.dim(d))
        facts = list(c.facts) + list(s.get('facts', []))
        if c.is_method:
            facts = list((c.schema or model).INVARIANT) + facts
        A = Attrs(lambda k: self.init[k])
        for f in facts:
            if f[0] == 'elem':
                if f[1] in self.arrs:
                    self.attach(f[1], f[2], A)
            elif f[0] == 'def':
                if f[1] in self.arrs:
                    self.attach_def(f[1], f[2], A, *f[3:])
            elif f[0] == 'pair':
                if f[1] in self.arrs:
                    self.attach_pair(f[1], f[2], A)
            elif f[0] == 'near':
                if f[1] in self.arrs:
                    self.attach_near(f[1], f[2], f[3], A)
            else:
                try:
                    self.eng.base_facts.append(tz(truth(unw(f[1](self.factq, A)))))
                except KeyError:
                    pass

    def slot(self, nm, st):
        """(dictionary, key) that holds the modelled attribute nm ('x', 'states.x', 'sub.x', 'sub.states.x')"""
        o = self.selfobj
        for pre in sorted(self.nested, key=len, reverse=True):
            if nm.startswith(pre + '.'):
                o, nm = self.nested[pre], nm[len(pre) + 1:]
                break
        d = st.objs.setdefault(o.id, {})
        if nm.startswith('states.'):
            if 'states' not in d:
                d['states'] = SDict(st)
            return d['states'].d(st), nm[7:]
        return d, nm

    def put(self, nm, v):
        d, k = self.slot(nm, self.st)
        d[k] = v

    def attach(self, nm, fn, A):
        f, shape, knd, a = self.arrs[nm]

        def build(args):
            g = b_and(*[b_and(cmp('>=', x, 0), cmp('<', x, n)) for x, n in zip(args, shape)])
            try:
                r = truth(unw(fn(self.factq, A, *[V(x) for x in args])))
            except KeyError:
                return []
            return [tz(b_or(b_not(g), r))]
        self.eng.defs.setdefault(f.name(), []).append((build, False))

    def attach_def(self, nm, fn, A, guard=None):
        """array nm equals fn at every index (where guard holds): a rewrite rule, and the fact itself"""
        f, shape, knd, a = self.arrs[nm]

        def when(args):
            g = b_and(*[b_and(cmp('>=', x, 0), cmp('<', x, n)) for x, n in zip(args, shape)])
            if guard is not None:
                g = b_and(g, truth(unw(guard(self.factq, A, *[V(x) for x in args]))))
            return g

        def rule(args):
            try:
                return tz(when(args)), tz(unw(fn(self.factq, A, *[V(x) for x in args])), knd)
            except KeyError:
                return None
        self.eng.idefs[f.name()] = rule

        def fact(q, A, *i):
            r = q.same(A[nm][i if len(i) > 1 else i[0]], fn(q, A, *i))
            return r if guard is None else q.Or(q.Not(guard(q, A, *i)), r)
        self.attach(nm, fact, A)

    def attach_pair(self, nm, fn, A):
        f, shape, knd, a = self.arrs[nm]

        def build(x, y):
            g = [b_and(cmp('>=', v[0], 0), cmp('<', v[0], shape[0])) for v in (x, y)]
            r = truth(unw(fn(self.factq, A, V(x[0]), V(y[0]))))
            return tz(b_or(b_not(b_and(g[0], g[1], x[0] != y[0])), r))
        self.eng.pair_defs.setdefault(f.name(), []).append(build)

    def attach_near(self, nm, d, fn, A):
        """a fact about every index of array nm and every index below dimension d (instantiated at the hints of an obligation)"""
        f, shape, knd, a = self.arrs[nm]

        def build(args, h):
            g = b_and(*[b_and(cmp('>=', x, 0), cmp('<', x, n)) for x, n in zip(args, shape)], cmp('>=', h, 0), cmp('<', h, self.dim(d)))
            return [tz(b_or(b_not(g), truth(unw(fn(self.factq, A, *[V(x) for x in args], V(h))))))]
        self.eng.univ.setdefault(f.name(), []).append(build)

    # ---------------------------------------------------------------- run
    def execute(self):
        c = self.c
        f = self.ld.func(c.target)
        if f is None:
            raise Unsupported('%s not found' % c.target)
        st = self.st
        kw = dict(self.args)
        if c.is_method:
            if f.is_static:
                r = self.it.call_func(f, [], kw, st)
            else:
                r = self.it.call_func(f, [self.selfobj], kw, st)
        else:
            pos = [kw.pop(k) for k in list(kw) if not k.startswith('kw_')]
            kw = {k[3:]: v for k, v in kw.items()}
            if f.is_class:
                mod, cls, meth = c.target.split('.')
                pos.insert(0, self.ld.cls(mod + '.' + cls))
            r = self.it.call_func(f, pos, kw, st)
        self.retv = r
        return r

    def wrap(self, v, st):
        if isinstance(v, ARRAYS):
            rd = self.it.reader(st, v)
            return SymArr(None, rd, v.shape, v.kind, source(v))
        if isinstance(v, SDeque):
            v = [st.objs[v.id][j] for j in range(v.MAX)]
        if isinstance(v, (tuple, list)):
            return tuple(self.wrap(x, st) for x in v)
        if is_num(v):
            return V(v)
        return v

    def new(self, k):
        st = self.st
        if k.startswith('arg.'):
            return self.wrap(self.args[k[4:]], st)
        if not self.c.is_method:
            return self.wrap(self.args[k], st)
        d, key = self.slot(k, st)
        if key in d:
            v = d[key]
        else:
            o = self.selfobj
            for pre, sub in self.nested.items():
                if k.startswith(pre + '.'):
                    o = sub
            v = self.it.getattr(o, key, st)
        if isinstance(v, Poison):
            raise Unsupported('attribute %s: %s' % (k, v.why))
        return self.wrap(v, st)

    def spec(self):
        q = SymQ(self.it, lambda k: self.init[k], self.new, self.args, self.wrap(self.retv, self.st), self.dims)
        q.dim = lambda d: V(self.dim(d))
        q.init = self.init
        q.hyps = list(self.st.pc)
        q.scenario = self.s['name']
        q.eng_task = self
        if self.c.hints:
            self.c.hints(q)
        self.c.post(q)
        if self.c.stages:
            q.obls.extend(self.it.stages.obls)
            for nm, bad in self.it.stages.static_frame():
                if bad:
                    raise Unsupported('frame of stage %s: %s' % (nm, '; '.join(bad[:3])))
                q.obls.append(('frame of %s' % nm, [], True, []))
        q.obls.extend(self.it.callee_pre)
        q.obls.extend(self.it.loop_obls)
        if self.c.noraise is True:
            for pc in self.it.raises:
                q.obls.append(('no-raise', [tz(p) for p in pc], False, []))
        self.obls = q.obls
        return q

    def discharge(self):
        P = Prover(self.eng, timeout=self.timeout, budget=self.budget)
        P.direct = self.c.direct
        out = []
        for name, hyps, goal, hints in self.obls:
            t = time.time()
            try:
                r = P.prove(hyps, goal, hints)
            except Unsupported as e:
                r = Result('unknown', 'unsupported', str(e))
            except z3.Z3Exception as e:
                r = Result('unknown', 'z3-error', str(e))
            if r.status == 'refuted' and (self.it.called_summaries or self.it.approximated) and not self.exact(hyps, goal):
                r = Result('unknown', r.backend, 'refuted with havoced callee results only')
            if r.status == 'refuted' and r.model is not None:
                r.inputs = self.inputs(r.model)
            out.append((name, r, time.time() - t))
        self.prover = P
        return out

    def inputs(self, m):
        """arguments of a counter-model of a function contract, for a replay on the real code"""
        if self.c.is_method:
            return None

        def num(t):
            v = m.eval(tz(t), model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(30).as_fraction())
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            raise ValueError(str(v))
        try:
            out = {}
            for nm, sp in {**(self.c.params or {}), **self.s.get('args', {})}.items():
                if not isinstance(sp, Sym):
                    continue
                if not sp.dims:
                    out[nm] = num(z3.Const('in_' + nm, SORTS[sp.kind]))
                    continue
                f, shape, knd, a = self.arrs[nm]
                n = [num(x) for x in shape]
                if len(n) > 2 or any(x > 60 for x in n):
                    return None
                out[nm] = [num(f(*[tz(j, 'int') for j in ix])) for ix in itertools.product(*[range(x) for x in n])]
                out[nm] = {'shape': n, 'kind': knd, 'values': out[nm]}
            return out
        except (ValueError, KeyError, OverflowError, z3.Z3Exception):
            return None

    def exact(self, hyps, goal):
        """the obligation is about calls and their arguments only: nothing a summarised callee leaves open is in it"""
        if not self.c.stages or any(not x.startswith('stage:') for x in self.it.called_summaries):
            return False
        seen, todo = set(), [x for x in list(hyps) + [goal] if is_sym(x)]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith(('in_', 'gi', 'dim_', 'free_'))):
                return False
            todo.extend(x.children())
        return True

    def vacuous(self):
        fs = [tz(p) for p in self.st.pc] + [tz(f) for f in self.eng.base_facts]
        base, facts = self.eng.instantiate(fs, unfold=0, rounds=2)
        r, _ = self.eng.check_sat(base + facts, 4000)
        return r == z3.unsat


def run_contract(c, ld=None, budget=None, timeout=None, verbose=False, only=None):
    """returns dict: status, obligations [(scenario, name, status, backend, secs)], functions, ..."""
    res = {'contract': c.name, 'target': c.target, 'obligations': [], 'functions': set(), 'unsupported': [],
           'backends': {}, 'queries': 0, 'solver_s': 0.0, 'summaries': set(), 'models': []}
    ld = ld or L.Loader()
    for s in c.scenarios:
        if only is not None and s['name'] != only:
            continue
        t0 = time.time()
        T = Task(c, s, ld, timeout=timeout, budget=budget)
        try:
            T.setup()
            T.execute()
            if T.vacuous():
                res['unsupported'].append((s['name'], 'precondition unsatisfiable (vacuous)'))
                continue
            T.spec()
        except Unsupported as e:
            res['unsupported'].append((s['name'], str(e)))
            if verbose:
                print('   UNSUPPORTED', c.name, s['name'], e, flush=True)
            continue
        except RecursionError as e:
            res['unsupported'].append((s['name'], 'recursion'))
            continue
        except Exception as e:
            res['unsupported'].append((s['name'], 'internal: %s' % ''.join(
                traceback.format_exception(type(e), e, e.__traceback__)[-3:])))
            if verbose:
                traceback.print_exc()
            continue
        finally:
            res['functions'] |= T.it.used
            res['summaries'] |= T.it.called_summaries | {'%s (%s)' % (x, extern.DOC.get(x, '')) for x in T.it.externals}
        t1 = time.time()
        for name, r, dt in T.discharge():
            res['obligations'].append((s['name'], name, r.status, r.backend, round(dt, 2), r.detail))
            res['backends'][r.backend] = res['backends'].get(r.backend, 0) + 1
            if r.status == 'refuted' and r.model is not None:
                res['models'].append((s['name'], name, str(r.model)[:4000], r.inputs))
            if verbose:
                print('   %-10s %-40s %-8s %-12s %.2fs' % (s['name'], name, r.status, r.backend, dt), flush=True)
        res['queries'] += T.eng.stats['queries']
        res['solver_s'] += T.eng.stats['solver_s']
        if verbose:
            print('   [exec %.1fs, total %.1fs]' % (t1 - t0, time.time() - t0), flush=True)
    return res
