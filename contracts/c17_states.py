"""C17 saving and loading model states."""
import copy
from .base import Contract, scen, Real, Int, Bool
from . import model as HM
from .c16_step import RECORD, RECORD_O, RECORD_W, RECORD_P, RECORD_M, STATE, GEOM, schema, warm

PRIMARY = ['H_j', '_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk', '_x_Ik', '_theta_uk', '_theta_dk', '_Qo', '_Qw', '_Qp', '_dx_ik', '_z_inv_Ik', '_elem_pos', '_fixed', 't']
SECT = ['_A_ik', '_A_uk', '_A_dk', '_A_sj', '_V_sj']


def at(x, i):
    return x[i if len(i) > 1 else i[0]]


def dims(S, a):
    return list(S.SCHEMA[a][1])


def wanted(o_, w_, p_, mobile):
    rec = dict(RECORD)
    for on, r in ((o_, RECORD_O), (w_, RECORD_W), (p_, RECORD_P), (mobile, RECORD_M)):
        if on:
            rec.update(r)
    return rec


DEV = [('none', (0, 0, 0, False)), ('all', (1, 1, 1, True)), ('orifices', (1, 0, 0, False)), ('weirs', (0, 1, 0, True)), ('pumps', (0, 0, 1, False))]


def post_save(dev):
    rec, S = wanted(*dev), schema(False)

    def post(q):
        o, n = q.old, q.new
        q.check('time is saved', q.same(n['states.t'], o['t']))
        q.check('time is unchanged', q.same(n['t'], o['t']))
        for r, a in rec.items():
            q.each('%s is saved' % r, dims(S, a), lambda *i: q.same(at(n['states.' + r], i), at(o[a], i)))
            for b in rec.values():
                q.check('saved %s is a copy%s' % (r, '' if a == b else ', not ' + b), q.separate(n['states.' + r], n[b]))
        for a in S.SCHEMA:
            q.each('%s is unchanged' % a, dims(S, a), lambda *i: q.same(at(n[a], i), at(o[a], i)))
    return post


for nm, dev in DEV:
    for again in (False, True):
        if again and nm != 'all':
            continue
        Contract('save_%s%s' % (nm, '_again' if again else ''), 'C17', 'nsuperlink.nSuperLink.save_state', post_save(dev), schema=schema(again), rac='none',
                 scenarios=[scen(nm, attrs=dict(n_o=dev[0], n_w=dev[1], n_p=dev[2], mobile_elements=dev[3], orifices='o' if dev[0] else None,
                                                weirs='w' if dev[1] else None, pumps='p' if dev[2] else None, **({} if again else {'states': {}})))])


# ------------------------------------------------------------------ loading
def item(E, given, r, a):
    """the array to be loaded as seen by a stage"""
    return E.arg('states').d(E.task.st)[r] if given else E.task.st.objs[E.task.st.objs[E.task.selfobj.id]['states'].id][r]


def load_stages(rec, given, compute, excl):
    def pre(g):
        def ok(E, same):
            from pydv.core import b_and
            return b_and(*[same(E.cur[a], item(E, given, r, a)) for r, a in rec.items() if a in PRIMARY and r not in excl])
        return {'the state is loaded before': ok}
    S = {}
    for g in GEOM + ['compute_storage_areas', 'node_velocities']:
        S[g] = dict(keeps=PRIMARY, pre=pre(g)) if compute else dict(never=True)
    if compute:
        S['node_velocities']['after'] = GEOM
    return dict(stages=S, protected=['M', 'NK', 'n_o', 'n_w', 'n_p', 'mobile_elements', 'states', '_dt'], once=list(S) if compute else [])


def post_load(rec, given, compute, excl, sp):
    S = schema(False)

    def post(q):
        o, n = q.old, q.new
        for g in sp['stages']:
            q.check('%s %s' % (g, 'runs once' if compute else 'does not run'), q.same(n['ghost:' + g], 1 if compute else 0))
        src = lambda r: q.item('states', r) if given else o['states.' + r]
        q.check('time is loaded', q.same(n['t'], o['t'] if 't' in excl else src('t')))
        loaded = []
        for r, a in rec.items():
            if compute and a in SECT:
                continue
            if r in excl:
                q.each('excluded %s is left as it was' % r, dims(S, a), lambda *i: q.same(at(n[a], i), at(o[a], i)))
                continue
            loaded.append(a)
            q.each('%s is loaded' % r, dims(S, a), lambda *i: q.same(at(n[a], i), at(src(r), i)))
            if a != 't':
                q.check('%s is a copy of what was loaded' % r, q.separate(n[a], src(r)))
        for a in S.SCHEMA:
            if a not in rec.values() and not (compute and a not in PRIMARY):
                q.each('%s is left as it was' % a, dims(S, a), lambda *i: q.same(at(n[a], i), at(o[a], i)))
    return post


for nm, dev, given, compute, excl in (
        ('own', (0, 0, 0, False), False, True, ()), ('own_all', (1, 1, 1, True), False, True, ()),
        ('given', (0, 0, 0, False), True, True, ()), ('given_all', (1, 1, 1, True), True, True, ()),
        ('given_plain', (1, 0, 1, True), True, False, ()), ('excluded', (1, 1, 0, False), True, True, ('H_j', 'Q_ik', '_theta_dk', 'Q_o', 't')),
        ('own_excluded', (0, 0, 1, True), False, False, ('h_Ik', 'Q_uk', 'x_Ik', 'Q_p', 'A_sj'))):
    rec = wanted(*dev)
    sp = load_stages(rec, given, compute, excl)
    S0 = schema(False)
    st = {r: {'real': Real, 'int': Int, 'bool': Bool}[S0.SCHEMA[a][0]](*dims(S0, a)) for r, a in rec.items()}
    st['t'] = Real()
    S1 = schema(False)
    if not given:
        for r, a in rec.items():
            S1.SCHEMA['states.' + r] = S1.SCHEMA[a]
        S1.SCALARS['states.t'] = ('real',)
    Contract('load_' + nm, 'C17', 'nsuperlink.nSuperLink.load_state', post_load(rec, given, compute, excl, sp), schema=S1, stages=sp, rac='none',
             scenarios=[scen(nm, args=dict(states=st if given else {}, exclude_states=frozenset(excl), compute_hydraulic_geometries=compute),
                             attrs=dict(n_o=dev[0], n_w=dev[1], n_p=dev[2], mobile_elements=dev[3]))])


# ------------------------------------------------------------------ frames of the geometry methods
def frame(q):
    for a in PRIMARY:
        if a in HM.SCHEMA:
            q.each('%s is left alone' % a, list(HM.SCHEMA[a][1]), lambda *i: q.same(at(q.new[a], i), at(q.old[a], i)))
    for a in HM.SCHEMA:
        if a.startswith('states.'):
            q.each('%s is left alone' % a, list(HM.SCHEMA[a][1]), lambda *i: q.same(at(q.new[a], i), at(q.old[a], i)))
    q.check('time is left alone', q.same(q.new['t'], q.old['t']))


from . import c04_dispatch as D4, c05_storage as D5      # noqa
for g, sc in (('link_hydraulic_geometry', D4.scs('_has_irregular')), ('upstream_hydraulic_geometry', D4.scs('_uk_has_irregular')),
              ('downstream_hydraulic_geometry', D4.scs('_dk_has_irregular')), ('compute_storage_areas', D5.SC), ('node_velocities', None)):
    Contract('frame_' + g, 'C17', 'nsuperlink.nSuperLink.' + g, frame, scenarios=sc)


# ------------------------------------------------------------------ bounded: resuming reproduces the run
CMP = ['t', 'H_j', '_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk', '_x_Ik', '_z_inv_Ik', '_dx_ik', '_Qo', '_Qw', '_Qp']


def prep_resume(g, obj, np):
    obj._fresh = None
    obj._fresh = copy.deepcopy(obj)
    r = g.r
    obj._inputs = [dict(dt=r.choice([1., 10.]), Q_in=np.array([r.uniform(0, .2) for _ in range(obj.M)]),
                        u_o=np.array([r.random() for _ in range(obj.n_o)]) if obj.n_o and r.random() < .5 else None) for _ in range(7)]
    Hb = np.copy(obj.H_j)
    for i in obj._inputs:
        i['H_bc'] = Hb
    go(obj, obj._inputs[:r.randint(0, 3)])


def go(m, inputs):
    for i in inputs:
        m.step(**i)
        if m.mobile_elements:
            m.reposition_junctions()


def look(m):
    import numpy as np
    return {a: np.copy(getattr(m, a)) for a in CMP if getattr(m, a, None) is not None}


def shared(m, v):
    import numpy as np
    return isinstance(v, np.ndarray) and any(isinstance(x, np.ndarray) and np.shares_memory(x, v) for x in m.__dict__.values())


def loaded(m, st):
    """what is wrong with a model that has just loaded st"""
    import numpy as np
    bad = ['loaded %s shares memory' % k for k, v in st.items() if shared(m, v)]
    for k in list(RECORD) + list(RECORD_O) + list(RECORD_W) + list(RECORD_P) + list(RECORD_M) + ['t']:
        if k in st and {**RECORD, **RECORD_O, **RECORD_W, **RECORD_P, **RECORD_M}.get(k) not in SECT and not np.array_equal(getattr(m, k), st[k], equal_nan=True):
            bad.append('%s is not what was loaded' % k)
    d = copy.deepcopy({k: v for k, v in m.__dict__.items() if k not in ('_fresh', '_inputs')})
    f = object.__new__(type(m))
    f.__dict__.update(d)
    for g in GEOM + ['compute_storage_areas', 'node_velocities']:
        getattr(f, g)()
    return bad + ['%s is not recomputed' % k for k, v in d.items() if isinstance(v, np.ndarray) and v.dtype.kind == 'f'
                  and not np.allclose(getattr(m, k), f.__dict__[k], equal_nan=True)]


def excluded(m, st, excl):
    """states that are excluded are left alone, the others are loaded"""
    import numpy as np
    d = copy.deepcopy({k: v for k, v in m.__dict__.items() if k not in ('_fresh', '_inputs')})
    f = object.__new__(type(m))
    f.__dict__.update(d)
    other = {k: copy.copy(v) if v is None or isinstance(v, str) else v + 1 if np.asarray(v).dtype.kind in 'fi' else v for k, v in st.items()}
    was = {k: copy.copy(getattr(f, k)) for k in other if k != '_t'}
    f.load_state(other, exclude_states=set(excl), compute_hydraulic_geometries=False)
    return ['%s is %s' % (k, 'loaded though excluded' if k in excl else 'not loaded') for k in other
            if k != '_t' and not np.array_equal(getattr(f, k), was[k] if k in excl else other[k])]


def gen_resume(g, s, np, obj, args):
    r = g.r
    rec = list(RECORD) + ['t'] + (list(RECORD_O) if obj.n_o else []) + (list(RECORD_M) if obj.mobile_elements else [])
    return dict(how=r.choice(['own', 'given', 'other']), excl=r.sample(rec, r.randint(0, 5)))


def run_resume(obj, a):
    ins, fresh = obj._inputs, obj._fresh
    tail = ins[3:6]
    if a['how'] == 'own':               # the state before the last step
        obj.step(**tail[0])
        want, m, todo = look(obj), obj, tail[:1]
        n = obj.iter_count
        obj.load_state()
        bad = loaded(obj, obj.states)
        obj.step(**tail[0])
        return dict(want=want, got=look(obj), kept=True, bad=bad)
    obj.save_state()
    bad = ['saved %s shares memory' % k for k, v in obj.states.items() if shared(obj, v)]
    st = copy.deepcopy(obj.states)
    kept = copy.deepcopy(st)
    go(obj, tail)
    want = look(obj)
    m = fresh if a['how'] == 'other' else obj
    m.load_state(st)
    bad += loaded(m, st)
    bad += excluded(m, st, a['excl'])
    go(m, tail)
    import numpy as np
    return dict(want=want, got=look(m), bad=bad, kept=all(np.array_equal(st[k], kept[k], equal_nan=True) for k in st))


def post_resume(q):
    import numpy as np
    r = q.ret
    q.check('copies and sections' + ''.join(': ' + x for x in r['bad'][:2]), not r['bad'])
    q.check('the caller\'s states are left as they were', r['kept'])
    for k, w in r['want'].items():
        if not np.isfinite(w).all() or np.abs(w).max(initial=0) > 1e6:
            continue
        q.check('resumed run has the same %s' % k, np.allclose(r['got'][k], w, rtol=1e-6, atol=1e-8))


Contract('resume', 'C17', 'nsuperlink.nSuperLink.load_state', post_resume, schema=schema(False), prove=False, group='natural', gen=gen_resume, call=run_resume, weight=3, noraise='bug',
         why='a resumed run repeats every later step of the original one: a statement on whole runs, checked on random models',
         scenarios=[scen('fixed', prepare=prep_resume), scen('mobile', prepare=prep_resume, model=dict(mobile_elements=True, internal_links=4))])
