"""Discharge of one obligation  hyps |- goal  by the back ends, in order:
   canon  - canonical rational/Iverson form (pure algebra; side conditions discharged by z3)
   z3     - instantiated definitional facts + z3
   cvc5   - the same problem through cvc5 (second opinion when z3 gives up)
"""
import time
import z3
from .core import *
from .canon import Canon, Blowup


class Result:
    def __init__(self, status, backend='', detail='', model=None):
        self.status, self.backend, self.detail, self.model = status, backend, detail, model

    def __repr__(self):
        return '%s[%s]%s' % (self.status, self.backend, self.detail and ' ' + self.detail[:200])


class IntCtx:
    """decides integer/boolean conditions under a fixed set of hypotheses (incremental solver)"""

    def __init__(self, eng, hyps, hints):
        self.eng, self.hints = eng, list(hints)
        self.s = z3.Solver()
        self.s.set('timeout', 3000)
        self.seen = set()
        self.memo = {}
        self.stack = []
        self.keep = []
        fs = [eng.rewrite(tz(f)) for f in eng.base_facts]
        base, facts = eng.instantiate(list(hyps), unfold=0, rounds=4, hints=self.hints)
        self.push(fs + base + facts)

    def push(self, fs):
        for f in fs:
            if f.get_id() in self.seen or self.eng.has_real(f):
                continue
            self.seen.add(f.get_id())
            self.keep.append(f)
            self.s.add(f)

    def proves(self, c):
        c = tz(c)
        if self.eng.has_real(c):
            return self.eng.valid(list(self.keep), c, timeout=2000, hints=self.hints)
        return self.truth(c) is True

    def enter(self, c):
        """assume an integer condition until leave()"""
        self.stack.append((self.seen, self.memo))
        self.seen, self.memo = set(self.seen), {}
        self.s.push()
        base, facts = self.eng.instantiate([c], unfold=0, rounds=4, hints=self.hints)
        self.push(base + facts)

    def leave(self):
        self.s.pop()
        self.seen, self.memo = self.stack.pop()

    def truth(self, c):
        cc = conc(c)
        if cc is not None:
            return cc
        i = c.get_id()
        if i in self.memo:
            return self.memo[i][0]
        base, facts = self.eng.instantiate([c], unfold=0, rounds=4, hints=self.hints)
        self.push(facts)
        t = time.time()
        c2 = base[0]
        r = None
        if self.s.check(z3.Not(c2)) == z3.unsat:
            r = True
        elif self.s.check(c2) == z3.unsat:
            r = False
        self.eng.stats['queries'] += 2
        self.eng.stats['solver_s'] += time.time() - t
        self.memo[i] = (r, c)
        return r


class Prover:
    def __init__(self, eng, timeout=8000, budget=60.0, use_cvc5=True):
        self.eng = eng
        self.timeout = timeout
        self.budget = budget
        self.use_cvc5 = use_cvc5
        self.canon = Canon(eng)
        self.backends = {}
        self.absd, self.absn, self.absk = {}, {}, {}
        self.hmemo, self.ikmemo, self.cimemo, self.abscache = {}, {}, {}, {}

    def prove(self, hyps, goal, hints=()):
        t0 = time.time()
        goal = tz(goal)
        hyps = [tz(h) for h in hyps]
        r = self._prove(hyps, goal, list(hints), t0)
        self.backends[r.backend] = self.backends.get(r.backend, 0) + 1
        return r

    def split(self, hyps, goal):
        """list of (hyps, atomic goal)"""
        if z3.is_and(goal):
            out = []
            for g in goal.children():
                out += self.split(hyps, g)
            return out
        if z3.is_implies(goal):
            return self.split(hyps + [goal.arg(0)], goal.arg(1))
        if z3.is_or(goal) and any(z3.is_not(c) for c in goal.children()):
            neg = [c.arg(0) for c in goal.children() if z3.is_not(c)]
            pos = [c for c in goal.children() if not z3.is_not(c)]
            if len(pos) == 1:
                return self.split(hyps + neg, pos[0])
        return [(hyps, goal)]

    def _prove(self, hyps, goal, hints, t0):
        parts = self.split(hyps, goal)
        used = set()
        for h, g in parts:
            r = self.prove1(h, g, hints, t0)
            if r.status != 'proved':
                return r
            used.add(r.backend)
        return Result('proved', '+'.join(sorted(used)) if used else 'trivial')

    def flat(self, hyps):
        out = []
        for h in hyps:
            out += self.flat(h.children()) if z3.is_and(h) else [h]
        return out

    def prove1(self, hyps, goal, hints, t0):
        eng = self.eng
        c = conc(z3.simplify(goal)) if conc(goal) is None else conc(goal)
        if c is True:
            return Result('proved', 'trivial')
        iseq = z3.is_eq(goal) and goal.arg(0).sort() != BOOL
        if self.direct:
            fs = self.problem(hyps, goal, hints, 0)
            for form, kind in ((self.linear(fs), 'z3 (products uninterpreted)'), (fs, 'z3')):
                r, _ = eng.check_sat(form, self.timeout)
                if r == z3.unsat:
                    return Result('proved', kind)
        ctx = IntCtx(eng, hyps, hints)
        nh, asm = [], {}
        for h in self.flat(hyps):
            h2 = eng.rewrite(h)
            if eng.has_real(h2):
                h2 = self.norm(ctx, h2, {}, hints)
            nh.append(h2)
            self.assume(asm, h2, True)
        g = self.norm(ctx, eng.rewrite(goal), asm, hints)
        # successive unfoldings of loop-final symbols
        rh, rh2 = [h for h in nh if eng.has_real(h)], []
        curs = [g]
        iseq2 = False
        for depth in range(4):
            cur = curs[-1]
            c = conc(z3.simplify(cur))
            if c is True:
                return Result('proved', 'norm')
            if z3.is_eq(cur) and cur.arg(0).sort() != BOOL:
                iseq2 = True
                r = self.algebra(nh, cur, hints, t0)
                if r is not None:
                    return r
                r = self.sumrule(nh, cur, hints, t0)
                if r is not None:
                    return r
            if depth < 3:
                for h in rh:
                    oth = {}
                    for h3 in nh:
                        if not h3.eq(h):
                            self.assume(oth, h3, True)
                    h2 = self.expand(ctx, h, oth, hints)
                    if h2 is not None and not h2.eq(h):
                        nh.append(h2)
                        rh2.append(h2)
                        self.assume(asm, h2, True)
                rh, rh2 = rh2, []
                nxt = self.expand(ctx, cur, asm, hints)
                if nxt is None or nxt.eq(cur):
                    break
                curs.append(nxt)
        last = None
        for d, cur in enumerate(curs):
            r = self.smt(nh, cur, hints, min(d, 2), t0, self.quick)
            if r.status == 'proved':
                return r
            last = r
        if last.status == 'refuted':
            if len(curs) == 1:
                r = self.smt(nh, curs[0], hints, 1, t0, self.quick)
                if r.status == 'proved':
                    return r
                last = r
            if last.status == 'refuted':
                return last
        if iseq2:
            for cur in curs:
                if z3.is_eq(cur):
                    r = self.casesplit(nh, cur, hints, t0, asm)
                    if r is not None:
                        return r
        for d, cur in enumerate(curs):
            for dd in {min(d, 2), 1}:
                r = self.smt(nh, cur, hints, dd, t0)
                if r.status == 'proved':
                    return r
                last = r
        if self.use_cvc5 and last.status == 'unknown':
            for cur in curs:
                r = self.cvc5(nh, cur, hints, 1)
                if r is not None:
                    return r
        return last

    # -------------------------------------------------------------- normalisation
    def indkey(self, c):
        h = self.ikmemo.get(c.get_id())
        if h is None:
            c2 = self.abstract(c)[0] if self.contains_ite(c) else c
            try:
                r = self.canon.freeze(self.canon.ind(c2))
            except (Blowup, Unsupported, z3.Z3Exception, KeyError):
                r = None
            h = self.ikmemo[c.get_id()] = (r, c)
        return h[0]

    def assume(self, asm, h, val):
        if z3.is_not(h):
            return self.assume(asm, h.arg(0), not val)
        if val and z3.is_and(h) or (not val and z3.is_or(h)):
            for x in h.children():
                self.assume(asm, x, val)
            return
        k = self.indkey(h)
        if k is not None:
            asm[k] = val
            n = self.canon.freeze(self.canon.padd(self.canon.const(1), self.canon.thaw(k), -1))
            asm[n] = not val

    def norm(self, ctx, e, asm, hints):
        """equivalent term under the hypotheses: owners replaced by the writing iteration, provable
        integer conditions and assumed conditions resolved"""
        eng = self.eng
        for rnd in range(8):
            apps = eng.apps([e])
            sub = []
            for nm, xs in apps.items():
                if nm in eng.owners:
                    for x in xs:
                        r = self.owner_of(ctx, x, nm, hints)
                        if r is not None:
                            sub.append((x, r))
                elif nm in eng.idefs:
                    for x in xs:
                        r = eng.idefs[nm](x.children())
                        if r is not None and ctx.proves(r[0]):
                            sub.append((x, r[1]))
            e2 = z3.substitute(e, *sub) if sub else e
            e2 = eng.rewrite(e2)
            e2 = self.resolve(ctx, e2, asm)
            if e2.eq(e):
                return e2
            e = e2
        return e

    def resolve(self, ctx, e, asm, maxlevel=6):
        cache = {}
        eng = self.eng

        def bval(c):
            """truth value of a condition if known"""
            cc = conc(c)
            if cc is not None:
                return cc
            if z3.is_and(c) or z3.is_or(c):
                vs = [bval(x) for x in c.children()]
                if z3.is_and(c):
                    if any(v is False for v in vs):
                        return False
                    if all(v is True for v in vs):
                        return True
                else:
                    if any(v is True for v in vs):
                        return True
                    if all(v is False for v in vs):
                        return False
            elif z3.is_not(c):
                v = bval(c.arg(0))
                return None if v is None else not v
            if not eng.has_real(c):
                return ctx.truth(c)
            if z3.is_eq(c) and c.arg(0).sort() != BOOL:
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if conc(a) == 0 and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MUL:
                        vs = [bval(x == 0) for x in b.children()]
                        if any(v is True for v in vs):
                            return True
                        if all(v is False for v in vs):
                            return False
            if asm:
                k = self.indkey(c)
                if k is not None:
                    if k in asm:
                        return asm[k]
                    if k == ():
                        return False
                    if k == (((), 1),):
                        return True
            return None

        def branch(c, x, val):
            nonlocal cache, asm, level, path
            if level >= maxlevel or not z3.is_app(x) or not x.num_args() or not has_ite(x):
                return go(x)
            saved, spath = cache, path
            path = path | {(c.get_id(), val)}
            cache = caches.setdefault(path, {})
            if x.get_id() in cache:
                r = cache[x.get_id()][1]
                cache, path = saved, spath
                return r
            level += 1
            try:
                if eng.has_real(c):
                    sasm, asm = asm, dict(asm)
                    self.assume(asm, c, val)
                    try:
                        return go(x)
                    finally:
                        asm = sasm
                ctx.enter(c if val else z3.Not(c))
                try:
                    return go(x)
                finally:
                    ctx.leave()
            finally:
                cache, path = saved, spath
                level -= 1

        caches, path = {}, frozenset()
        keep = []
        level = 0
        has_ite = self.contains_ite

        def go(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                v = bval(x.arg(0))
                if v is None:
                    c2 = go(x.arg(0))
                    v = bval(c2) if not c2.eq(x.arg(0)) else None
                if v is not None:
                    r = go(x.arg(1) if v else x.arg(2))
                else:
                    keep.append(c2)
                    a, b = branch(c2, x.arg(1), True), branch(c2, x.arg(2), False)
                    r = a if a.eq(b) else z3.If(c2, a, b)
            elif z3.is_app(x) and x.sort() == BOOL and x.num_args() and not eng.has_real(x) and ctx.truth(x) is not None:
                r = z3.BoolVal(ctx.truth(x))
            elif z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if x.sort() == INT and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                    r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else z3.substitute(
                        x, *[(b, a) for a, b in zip(ch, x.children()) if not a.eq(b)])
                    r = z3.simplify(r, som=True)
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    if z3.is_and(x):
                        r = z3.simplify(z3.And(*ch))
                    elif z3.is_or(x):
                        r = z3.simplify(z3.Or(*ch))
                    else:
                        r = x.decl()(*ch) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(
                            x, *[(b, a) for a, b in zip(ch, x.children()) if not a.eq(b)])
                else:
                    r = x
            else:
                r = x
            cache[i] = (x, r)
            return r
        return go(e)

    def owner_of(self, ctx, x, nm, hints):
        eng = self.eng
        trip, wr, nout, first = eng.owners[nm]
        if first:
            return None
        ch = x.children()
        outer, idx = ch[:nout], ch[nout:]
        for h in hints:
            if h.sort() != INT or h.eq(x):
                continue
            cond = b_and(cmp('>=', h, 0), cmp('<', h, trip(outer)), wr(h, idx, outer))
            if ctx.proves(cond):
                return h
        for b, unf in eng.defs.get(nm, []):
            for f in b(ch):
                f = tz(f)
                if z3.is_implies(f) and z3.is_eq(f.arg(1)) and f.arg(1).arg(0).eq(x):
                    if ctx.proves(f.arg(0)):
                        return f.arg(1).arg(1)
        return None

    def definition(self, ctx, x):
        """unfold a loop-final symbol when its guard is provable"""
        eng = self.eng
        for b, unf in eng.defs.get(x.decl().name(), []):
            if not unf:
                continue
            for f in b(x.children()):
                f = tz(f)
                if z3.is_implies(f) and z3.is_eq(f.arg(1)) and f.arg(1).arg(0).eq(x):
                    g = f.arg(0)
                    if ctx.proves(g):
                        return f.arg(1).arg(1)
        return None

    def expand(self, ctx, g, asm, hints):
        """unfold the frontier of loop-final symbols (those no other present symbol is defined from)"""
        eng = self.eng
        defs = {}
        terms = {}
        for nm, xs in eng.apps([g]).items():
            if nm in eng.sums or nm in eng.owners:
                continue
            if any(u for _, u in eng.defs.get(nm, [])):
                for x in xs:
                    r = self.definition(ctx, x)
                    if r is not None:
                        defs[x.get_id()] = self.norm(ctx, r, asm, hints)
                        terms[x.get_id()] = x
        if not defs:
            return None
        used = set()
        for i, r in defs.items():
            for nm, xs in eng.apps([r]).items():
                for x in xs:
                    if x.get_id() != i:
                        used.add(x.get_id())
        front = [i for i in defs if i not in used] or list(defs)
        g2 = z3.substitute(g, *[(terms[i], defs[i]) for i in front])
        return self.norm(ctx, g2, asm, hints)

    # -------------------------------------------------------------- algebra
    def abstract(self, e):
        """replace maximal real-valued conditionals by fresh constants (a generalisation)"""
        names = {}
        cache = self.abscache

        def go(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() == REAL:
                h = self.absn.get(i)
                if h is None:
                    ch = [go(c) for c in x.children()]
                    cn = self.canon
                    try:
                        key = (cn.freeze(cn.ind(ch[0])), cn.freeze(cn.poly(ch[1])), cn.freeze(cn.poly(ch[2])))
                    except (Blowup, Unsupported, z3.Z3Exception, KeyError):
                        key = i
                    h = self.absk.get(key)
                    if h is None:
                        n = z3.Const(self.eng.fresh_name('abs'), REAL)
                        h = self.absk[key] = (n, x)
                        self.absd[n.get_id()] = h
                    self.absn[i] = h + (x,)
                r = names[i] = h[0]
            elif z3.is_app(x) and x.num_args() and not z3.is_const(x):
                ch = [go(c) for c in x.children()]
                if any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(
                        x, *[(b, a) for a, b in zip(ch, x.children()) if not a.eq(b)])
                else:
                    r = x
            else:
                r = x
            cache[i] = (x, r)
            return r
        return go(e), names

    def algebra(self, hyps, g, hints, t0):
        if self.contains_ite(g):
            g2, names = self.abstract(g)
            if not g2.eq(g):
                r = self.algebra1(hyps, g2, hints, t0)
                if r is not None:
                    return r
        return self.algebra1(hyps, g, hints, t0)

    def algebra1(self, hyps, g, hints, t0):
        try:
            l, r = self.canon.poly(g.arg(0)), self.canon.poly(g.arg(1))
            d = self.canon.padd(l, r, -1)
            if not d:
                return Result('proved', 'canon')
            if len(d) > 400:
                return None
            q, dens = self.canon.clear(d)
            if q:
                return None
            for den in dens:
                cnd = self.canon.to_z3(den) != 0
                back = [(n, x) for n, x in self.absd.values()]
                if back:
                    cnd = z3.substitute(cnd, *back)
                if not self.eng.valid(hyps, cnd, timeout=3000, hints=hints, unfold=0):
                    if not self.eng.valid(hyps, cnd, timeout=6000, hints=hints, unfold=1):
                        return None
            return Result('proved', 'canon+z3' if dens else 'canon')
        except (Blowup, Unsupported, z3.Z3Exception, KeyError):
            return None

    # -------------------------------------------------------------- sums
    def sumrule(self, hyps, g, hints, t0):
        """sum_v f(v) + r == 0 follows from r == 0 and f(v) == 0 for every v in range (sums with the same
        number of terms are first combined)"""
        eng = self.eng
        if self.sumdepth >= 2 or not any(nm in eng.sums for nm in eng.apps([g])):
            return None
        groups, rest = {}, []

        def lin(e, co):
            """add co*e"""
            if not any(nm in eng.sums for nm in eng.apps([e])):
                rest.append(e if co is None else co * e)
                return True
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_ADD:
                return all(lin(x, co) for x in ch)
            if k == z3.Z3_OP_SUB:
                return lin(ch[0], co) and all(lin(x, z3.RealVal(-1) if co is None else -co) for x in ch[1:])
            if k == z3.Z3_OP_UMINUS:
                return lin(ch[0], z3.RealVal(-1) if co is None else -co)
            if k == z3.Z3_OP_MUL:
                w = [x for x in ch if any(nm in eng.sums for nm in eng.apps([x]))]
                if len(w) != 1:
                    return False
                for x in ch:
                    if not x.eq(w[0]):
                        co = x if co is None else co * x
                return lin(w[0], co)
            if k == z3.Z3_OP_DIV and not any(nm in eng.sums for nm in eng.apps([ch[1]])):
                return lin(ch[0], 1 / ch[1] if co is None else co / ch[1])
            if k == z3.Z3_OP_ITE:
                one, zero = z3.RealVal(1), z3.RealVal(0)
                c1, c0 = z3.If(ch[0], one, zero), z3.If(ch[0], zero, one)
                return lin(ch[1], c1 if co is None else c1 * co) and lin(ch[2], c0 if co is None else c0 * co)
            if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() in eng.sums:
                no, nidx, summand = eng.sums[e.decl().name()][:3]
                up = ch[no + nidx]
                key = self.canon.freeze(self.canon.poly(up))
                groups.setdefault(key, (up, []))[1].append((co, summand, ch[:no], ch[no:no + nidx]))
                return True
            return False
        try:
            if not lin(g.arg(0), None) or not lin(g.arg(1), z3.RealVal(-1)):
                return None
        except (Blowup, Unsupported, z3.Z3Exception, KeyError):
            return None
        self.sumdepth += 1
        used = set()
        try:
            todo = []
            if rest:
                todo.append((hyps, z3.Sum(*rest) == 0 if len(rest) > 1 else rest[0] == 0, hints))
            for up, terms in groups.values():
                v = z3.Int(eng.fresh_name('sv'))
                t = None
                for co, summand, o, idx in terms:
                    x = tz(summand(v, list(o), list(idx)), 'real')
                    x = x if co is None else co * x
                    t = x if t is None else t + x
                todo.append((hyps + [v >= 0, v < up], t == 0, list(hints) + [v]))
            for h, gg, hi in todo:
                r = self.prove1(h, gg, hi, t0)
                if r.status != 'proved':
                    return None
                used.add(r.backend)
            return Result('proved', '+'.join(sorted({b for u in used for b in u.split('+')} | {'sum'})))
        finally:
            self.sumdepth -= 1

    sumdepth = 0

    # -------------------------------------------------------------- smt
    def problem(self, hyps, goal, hints, depth):
        eng = self.eng
        fs = list(hyps) + [z3.Not(goal)]
        base, facts = eng.instantiate(fs, unfold=depth, rounds=4 + depth, hints=hints)
        bf = [eng.rewrite(tz(f)) for f in eng.base_facts]
        return bf + base + facts

    quick = 1500
    direct = False              # ask the solver first, products of unknowns uninterpreted

    def linear(self, fs):
        """the same formulas with every product of two unknowns and every division by an unknown made an uninterpreted function
        (anything that follows from these follows from the originals)"""
        memo, extra = {}, []

        def unknown(x):
            return not (z3.is_rational_value(x) or z3.is_int_value(x))

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][0]
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                k = x.decl().kind()
                if k == z3.Z3_OP_MUL and sum(1 for c in ch if unknown(c)) > 1:
                    con = [c for c in ch if not unknown(c)]
                    var = sorted((c for c in ch if unknown(c)), key=lambda c: c.get_id())
                    r = var[0]
                    for c in var[1:]:
                        f = z3.Function('product_%s' % x.sort(), x.sort(), x.sort(), x.sort())
                        extra.append(f(r, c) == f(c, r))
                        r = f(r, c)
                    for c in con:
                        r = c * r
                elif k == z3.Z3_OP_DIV and unknown(ch[1]):
                    r = z3.Function('quotient', *([REAL] * 3))(*ch)
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
            memo[i] = (r, x)
            return r
        return [go(f) for f in fs] + extra

    def smt(self, hyps, goal, hints, depth, t0, tmo=None):
        left = max(1.0, self.budget - (time.time() - t0))
        self.eng.truncated = False
        fs = self.problem(hyps, goal, hints, depth)
        r, s = self.eng.check_sat(fs, int(min(tmo or self.timeout, left * 1000)))
        if r == z3.unsat:
            return Result('proved', 'z3')
        if r == z3.sat and self.eng.truncated:
            return Result('unknown', 'z3', 'not every instance of the layout facts was used')
        if r == z3.sat and any(nm in self.INEXACT or nm in self.eng.sums for nm in self.eng.apps(fs)):
            return Result('unknown', 'z3', 'counter-model of the partial axioms of sums / transcendental functions')
        if r == z3.sat and any(nm.startswith(self.PARTIAL) or nm in self.eng.univ or nm in self.eng.owners for nm in self.eng.apps(fs)):
            return Result('unknown', 'z3', 'counter-model at a finite unfolding of a loop recurrence')
        if r == z3.sat:
            m = s.model()
            return Result('refuted', 'z3', 'counter-model at unfolding depth %d' % depth, m)
        return Result('unknown', 'z3', 'z3: %s' % s.reason_unknown())

    # -------------------------------------------------------------- case splitting
    def find_ite(self, e):
        seen = set()
        best = None
        stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE:
                    c = x.arg(0)
                    if not self.contains_ite(c):
                        if not self.heavy(c):
                            return c
                        best = best if best is not None else c
                stk.extend(x.children())
        return best

    PARTIAL = ('rec_', 'reb_', 'inv_')      # values carried from one iteration to the next: unfolded finitely often
    INEXACT = {'POW', 'COS', 'SIN', 'TAN', 'ACOS', 'ASIN', 'ATAN', 'LOG', 'LOG10', 'EXP'}
    SPECIAL = {'SQRT', 'POW', 'COS', 'SIN', 'TAN', 'ACOS', 'ASIN', 'ATAN', 'LOG', 'LOG10', 'EXP'}

    def heavy(self, c):
        """mentions a special function or a product of two unknowns"""
        i = c.get_id()
        h = self.hmemo.get(i)
        if h is None:
            h = False
            for x in self.subterms(c):
                k = x.decl().kind()
                if k == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.SPECIAL:
                    h = True
                elif k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and sum(1 for y in x.children() if conc(y) is None) > 1:
                    h = True
            h = self.hmemo[i] = (h, c)
        return h[0]

    def subterms(self, e):
        seen, stk = set(), [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            yield x
            stk.extend(x.children())

    def fold(self, e):
        """boolean constant propagation (no arithmetic rewriting)"""
        cache = {}

        def go(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                k = x.decl().kind()
                if k == z3.Z3_OP_ITE:
                    v = conc(ch[0])
                    r = (ch[1] if v else ch[2]) if v is not None else (
                        ch[1] if ch[1].eq(ch[2]) else z3.If(*ch))
                elif z3.is_and(x) or z3.is_or(x):
                    stop = z3.is_or(x)
                    vs = [conc(c) for c in ch]
                    if any(v is not None and bool(v) == stop for v in vs):
                        r = z3.BoolVal(stop)
                    else:
                        left = [c for c, v in zip(ch, vs) if v is None]
                        r = z3.BoolVal(not stop) if not left else (left[0] if len(left) == 1 else (
                            z3.Or(*left) if stop else z3.And(*left)))
                elif z3.is_not(x):
                    v = conc(ch[0])
                    r = z3.BoolVal(not v) if v is not None else z3.Not(ch[0])
                elif k == z3.Z3_OP_EQ and ch[0].sort() == BOOL:
                    v, w = conc(ch[0]), conc(ch[1])
                    r = (ch[1] if v else z3.Not(ch[1])) if v is not None else (
                        (ch[0] if w else z3.Not(ch[0])) if w is not None else ch[0] == ch[1])
                elif k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and all(
                        conc(c) is not None for c in ch):
                    r = z3.simplify(x.decl()(*ch))
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
            cache[i] = (x, r)
            return r
        return go(e)

    def fnabs(self, hyps, g):
        """applications of special functions with canonically equal arguments become one constant"""
        names, facts = {}, []

        def go(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.SPECIAL:
                    y = self.abstract(x)[0]
                    key = (x.decl().name(),) + tuple(self.canon.freeze(self.canon.poly(c)) for c in y.children())
                    if key not in names:
                        n = names[key] = z3.Const(self.eng.fresh_name('fn'), REAL)
                        if x.decl().name() == 'SQRT':
                            facts.append(z3.Implies(ch[0] >= 0, n >= 0))
                        elif x.decl().name() == 'POW':
                            facts.append(z3.Implies(ch[0] > 0, n > 0))
                        elif x.decl().name() == 'EXP':
                            facts.append(n > 0)
                    r = names[key]
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
            cache[i] = (x, r)
            return r
        cache = {}
        try:
            h2 = [go(h) for h in hyps]
            g2 = go(g)
        except (Blowup, Unsupported, z3.Z3Exception, KeyError):
            return None, None
        return h2 + facts, g2

    def contains_ite(self, e):
        h = self.cimemo.get(e.get_id())
        if h is None:
            r = z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(self.contains_ite(x) for x in e.children()))
            h = self.cimemo[e.get_id()] = (r, e)
        return h[0]

    def atoms_of(self, c):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            for x in c.children():
                r = self.atoms_of(x)
                if r is not None:
                    return r
            return None
        return c

    def casesplit(self, hyps, g, hints, t0, asm=None, depth=0):
        eng = self.eng
        if time.time() - t0 > self.budget or depth > 14:
            return None
        r = self.algebra(hyps, g, hints, t0)
        if r is not None:
            return Result('proved', 'canon+split')
        c = self.find_ite(g)
        if c is None:
            if depth == 0:
                return None
            r = self.smt(hyps, g, hints, 1, t0, self.quick)
            return Result('proved', 'z3+split') if r.status == 'proved' else None
        if self.heavy(c) and depth:
            # only conditions over special functions or products are left: abstract equal applications
            h3, g3 = self.fnabs(hyps, g)
            if h3 is not None:
                r = self.smt(h3, g3, hints, 0, t0, self.quick)
                if r.status == 'proved':
                    return Result('proved', 'canon+z3+split')
        a = self.atoms_of(c)
        if a is None:
            a = c
        for val, extra in ((True, a), (False, z3.Not(a))):
            h2 = hyps + [extra]
            if eng.valid(h2, z3.BoolVal(False), timeout=1000, hints=hints, cheap=eng.int_cond(a)):
                continue
            g2 = self.fold(z3.substitute(g, (a, z3.BoolVal(val))))
            if z3.is_true(g2):
                continue
            if z3.is_false(g2):
                return None
            if not z3.is_eq(g2):
                r = self.smt(h2, g2, hints, 1, t0, self.quick)
                if r.status != 'proved':
                    return None
                continue
            asm2 = dict(asm or {})
            self.assume(asm2, a, val)
            g2 = self.resolve(IntCtx(eng, h2, hints), g2, asm2, 0)
            if conc(g2) is True:
                continue
            r = self.casesplit(h2, g2, hints, t0, asm2, depth + 1)
            if r is None:
                return None
        return Result('proved', 'canon+split')

    # -------------------------------------------------------------- cvc5
    def cvc5(self, hyps, goal, hints, depth):
        try:
            import cvc5
        except ImportError:
            return None
        fs = self.problem(hyps, goal, hints, depth)
        s = z3.Solver()
        for f in fs:
            s.add(tz(f))
        txt = s.to_smt2()
        try:
            t = time.time()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', '8000')
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            res = None
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if str(out).strip() in ('sat', 'unsat', 'unknown'):
                    res = str(out).strip()
            self.eng.stats['solver_s'] += time.time() - t
            self.eng.stats['queries'] += 1
            if res == 'unsat':
                return Result('proved', 'cvc5')
        except Exception as e:       # cvc5 is optional
            self.eng.log.append('cvc5: %s' % e)
        return None
