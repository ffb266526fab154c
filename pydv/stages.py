"""Calls of the stages of a step, checked against a contract instead of their bodies: each call is an event
with an order (ghost counters), argument obligations and a frame; everything outside the frame is havoced.
The frame is itself checked, syntactically, over every method of the class that the stage can reach."""
import ast
import z3
from .core import *
from .core import conc


def compare_values(it, st, a, b):
    """boolean (python or z3) that the two values are the same, or None if that cannot be said"""
    if a is b:
        return True
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if is_num(a) and is_num(b):
        return cmp('==', a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        rs = [compare_values(it, st, x, y) for x, y in zip(a, b)]
        return False if any(r is False for r in rs) else b_and(*rs)
    if isinstance(a, SDict) and isinstance(b, SDict):
        da, db = a.items_checked(st), b.items_checked(st)
        if set(da) != set(db):
            return False
        return compare_values(it, st, [da[k] for k in sorted(da)], [db[k] for k in sorted(da)])
    if isinstance(a, ARRAYS) and isinstance(b, ARRAYS) and len(a.shape) == len(b.shape):
        i = tuple(it.eng.fresh('gi', 'int') for _ in a.shape)
        g = b_and(*[b_and(cmp('>=', x, 0), cmp('<', x, n)) for x, n in zip(i, a.shape)])
        return b_and(*[cmp('==', x, y) for x, y in zip(a.shape, b.shape)],
                     b_or(b_not(g), cmp('==', it.reader(st, a)(i), it.reader(st, b)(i))))
    return False


class Stages:
    def __init__(self, task, spec):
        self.task, self.spec = task, spec
        self.obls = []
        self.seen = {}

    def setup(self):
        self.obj = o = self.task.nested[self.spec['object']] if 'object' in self.spec else self.task.selfobj
        for nm in self.spec['stages']:
            self.task.st.objs[o.id]['ghost:' + nm] = 0

    def applies(self, it, f, args):
        return (it.depth > 0 and f.cls is not None and args and args[0] is self.obj
                and f.node.name in self.spec['stages'])

    def call(self, it, f, args, kw, st):
        name = f.node.name
        sp = self.spec['stages'][name]
        o = self.obj
        d = st.objs[o.id]
        bound = it.bindargs(f, args, kw, st)
        g = {k[6:]: v for k, v in d.items() if k.startswith('ghost:')}
        self.seen[name] = f
        for p in sp.get('after', ()):
            self.obls.append(('%s runs after %s' % (name, p), list(st.pc), cmp('==', g[p], add(g[name], 1)), []))
        E = Env(self.task, g[name], d)
        E.bound, E.state, E.it = bound, st, it
        for prm, want in sp.get('args', {}).items():
            if prm not in bound:
                raise Unsupported('stage %s has no parameter %s' % (name, prm))
            r = compare_values(it, st, bound[prm], want(E))
            self.obls.append(('%s is given %s' % (name, prm), list(st.pc), r, []))
        for label, fn in sp.get('pre', {}).items():
            self.obls.append(('%s: %s' % (name, label), list(st.pc), fn(E, lambda a, b: compare_values(it, st, a, b)), []))
        d['ghost:' + name] = add(g[name], 1)
        it.called_summaries.add('stage:' + name)
        if not sp.get('pure'):
            self.havoc(it, st, d, set(sp.get('keeps', ())), set(sp.get('changes', ())))
            for nm in sp.get('nested', ()):
                nd = st.objs[d[nm].id]
                for x in nd.values():
                    if isinstance(x, SDict):
                        self.havoc(it, st, x.d(st), set(), (), every=True)
                self.havoc(it, st, nd, set(), (), every=True)
        if 'effect' in sp:
            sp['effect'](E)
        return sp['result'](E) if 'result' in sp else None

    def havoc(self, it, st, d, keeps, changes=(), every=False):
        prot = set() if every else (keeps | set(self.spec['protected']) | set(self.spec.get('hidden', ()))) - set(changes)
        for k, v in list(d.items()):
            if k.startswith('ghost:') or k in prot:
                continue
            if isinstance(v, SDeque):
                for j in range(v.MAX):
                    st.objs[v.id][j] = Poison('item of a deque after a call')
                continue
            if v is None and k in changes:
                d[k] = Poison('attribute %s after a call' % k)
            if isinstance(v, ARRAYS):
                b = v.base if isinstance(v, View) else v
                if v.name in ('reb', 'rebound'):
                    pass
                h = it.havoc_array(st, b.kind, b.shape, 'hv_' + k)
                st.heap[b.id] = st.heap[h.id]
                n = it.havoc_array(st, v.kind, v.shape, 'hv_' + k)
                n.name = 'havoc'
                it.frozen.add(n.id)
                d[k] = n
            elif is_num(v):
                kd = kind(v)
                f = z3.Function(it.eng.fresh_name('hv_' + k), *([INT] * len(it.eng.loopvars) + [SORTS[kd]]))
                d[k] = f(*it.eng.loopvars)
        it.approximated = True

    def static_frame(self):
        """[(stage, offending places)] : may the stage change a protected attribute?"""
        ld, cls = self.task.ld, self.obj.cls
        prot = set(self.spec['protected'])
        self.hidden = set(self.spec.get('hidden', ()))
        out = []
        for nm in self.spec['stages']:
            bad, seen, todo = [], set(), [nm]
            sp = self.spec['stages'][nm]
            keeps = (prot | set(sp.get('keeps_static', ()))) - set(sp.get('changes', ()))
            self.pure = bool(sp.get('pure'))
            while todo:
                m = todo.pop()
                if m in seen:
                    continue
                seen.add(m)
                fs = [k.methods[m] for k in ld.mro(cls) if m in k.methods] + [k.setters[m] for k in ld.mro(cls) if m in k.setters]
                for f in fs:
                    self.scan(f, keeps, bad, todo)
            out.append((nm, bad))
        return out

    def scan(self, f, keeps, bad, todo):
        par = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Name) and n.id == 'self'):
                continue
            p = par.get(n)
            if not isinstance(p, ast.Attribute):
                bad.append('%s:%d self escapes' % (f.qual, n.lineno))
                continue
            todo.append(p.attr)
            if p.attr in ('__dict__', '__setattr__', '__class__'):
                bad.append('%s:%d self.%s' % (f.qual, n.lineno, p.attr))
            if p.attr in self.hidden:
                bad.append('%s:%d uses self.%s' % (f.qual, n.lineno, p.attr))
            if p.attr not in keeps and not self.pure:
                continue
            if p.attr in self.task.nested or self.pure:      # nothing is stored in or below it either
                c = p
                while isinstance(par.get(c), (ast.Attribute, ast.Subscript)) and par[c].value is c:
                    c = par[c]
                if isinstance(c.ctx, (ast.Store, ast.Del)):
                    bad.append('%s:%d writes below self.%s' % (f.qual, n.lineno, p.attr))
            if isinstance(p.ctx, (ast.Store, ast.Del)):
                bad.append('%s:%d writes self.%s' % (f.qual, n.lineno, p.attr))
            if p.attr == 'states':
                q = par.get(p)
                if not (isinstance(q, ast.Subscript) and q.value is p and isinstance(q.ctx, ast.Load)):
                    bad.append('%s:%d uses self.states' % (f.qual, n.lineno))


class Env:
    def ghost(self, nm, v=None):
        """the object's ghost attribute; sets it if a value is given"""
        if v is not None:
            self.cur['ghost:' + nm] = v
        return self.cur.get('ghost:' + nm)

    def copy(self, v):
        from .extern import copied
        return copied(self.it, v, self.state, True)

    def attr(self, obj, nm):
        return self.state.objs[self.cur[obj].id][nm]

    def like(self, v, name):
        """a new array of the same shape with unknown contents"""
        a = self.it.havoc_array(self.state, v.kind, v.shape, name)
        self.it.approximated = True
        return a

    def number(self, name):
        self.it.approximated = True
        return z3.Real(self.it.eng.fresh_name(name))

    def minus(self, a, b):
        return self.it.pointwise(self.state, sub, a, b)

    """what a stage contract may refer to: the arguments of the method under proof, initial and current attributes"""
    def __init__(self, task, count, d):
        self.task, self.count, self.cur = task, count, d

    def has(self, nm):
        return self.task.args.get(nm) is not None

    def arg(self, nm):
        return self.task.args.get(nm)

    def old(self, nm):
        from .spec import unw
        v = self.task.init[nm]
        return unw(v)

    def either(self, nm, attr):
        return self.arg(nm) if self.has(nm) else self.old(attr)

    def first(self, a, b):
        """a in the first iteration, b in later ones"""
        return ite(cmp('==', self.count, 0), a, b)
