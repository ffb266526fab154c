"""Contract declarations (importable under both interpreters; no z3 here)."""

REGISTRY = {}
LEVELS = {}


class Contract:
    """A contract on one function or method of /repo.

    target     'module.func' or 'module.Class.method'
    prop       property id it belongs to
    scenarios  list of dicts: {'name':..., 'args': {param: spec}, 'attrs': {attr: spec}}
               spec: python constant | Real(name) | Int | Bool | Array(kind, dims) (symbolic)
    post       function(q): states obligations with q.each / q.check
    facts      extra preconditions: list of ('elem', array name, fn(q, a, idx...)) /
               ('fact', fn(q, a)); assumed symbolically, evaluated concretely before a call counts
    """
    def __init__(self, name, prop, target, post, scenarios=None, facts=(), dims=None, params=None,
                 summaries=(), applies=None, hints=None, noraise=False, gen=None, title='', group=None,
                 schema=None, call=None, budget=60, timeout=8000, rtol=1e-6, atol=1e-9, uses=(), rac=None, prove=True, why='', weight=1, assumes=(), static=False, stages=None, opaque=False, invariants=None, owned=None, direct=False):
        self.name, self.prop, self.target, self.post = name, prop, target, post
        self.scenarios = scenarios or [{'name': 'all', 'args': {}, 'attrs': {}}]
        self.facts = list(facts)
        self.dims = dims or {}
        self.params = params
        self.summaries = dict(summaries)      # callee -> (parameters it may write, parameter shaping its result)
        self.applies = applies
        self.hints = hints
        self.noraise = noraise
        self.gen = gen
        self.title = title
        self.group = group
        self.schema = schema
        self.call = call
        self.budget = budget
        self.timeout = timeout
        self.rtol, self.atol = rtol, atol
        self.uses = list(uses)
        self.rac = rac
        self.static = static
        self.stages = stages
        self.owned = owned                    # loops over superlinks whose iterations keep to their own cells
        self.direct = direct
        self.opaque = opaque
        self.invariants = invariants or {}
        self.prove, self.why, self.weight, self.assumes = prove, why, weight, list(assumes)
        REGISTRY[name] = self

    @property
    def is_method(self):
        return self.target.count('.') == 2 and not self.static


class Sym:
    """symbolic argument/attribute: kind in real|int|bool, dims () for scalars"""
    def __init__(self, kind, dims=()):
        self.kind, self.dims = kind, tuple(dims) if isinstance(dims, (tuple, list)) else (dims,)


class Fn:
    """an unknown real function of one variable (given as an argument)"""
    def __init__(self, name):
        self.name = name


def Real(*d):
    return Sym('real', d)


def Int(*d):
    return Sym('int', d)


def Bool(*d):
    return Sym('bool', d)


def scen(name, args=None, attrs=None, dims=None, facts=(), **kw):
    return {'name': name, 'args': args or {}, 'attrs': attrs or {}, 'dims': dims or {}, 'facts': list(facts), **kw}
