"""Canonical forms: polynomials over atoms with Iverson brackets for conditions and explicit
inverses for divisions.  Two terms with the same canonical form are equal in every model where
1/0 = 0 (division by zero is outside the arithmetic model; see DESIGN.md).

Used as one of the back ends: `zero(p)` means the identity is proved by pure algebra.
"""
from fractions import Fraction as Fr
import z3
from .core import is_sym, conc, Unsupported

MAXTERMS = 6000


class Blowup(Exception):
    pass


class Canon:
    def __init__(self, eng):
        self.eng = eng
        self.atoms = {}       # key -> id
        self.keys = []        # id -> key
        self.expr = {}        # id -> z3 expr (representative) or None
        self.memo = {}
        self.bmemo = {}
        self.bound = 0
        self.keep = []

    # polynomials: dict {monomial: coeff}; monomial: tuple of (atom id, power) sorted
    def atom(self, key, e=None):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.keys)
            self.atoms[key] = i
            self.keys.append(key)
            self.expr[i] = e
        return {((i, 1),): Fr(1)}

    def const(self, c):
        return {(): Fr(c)} if c != 0 else {}

    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > MAXTERMS:
            raise Blowup()
        return r

    def mmul(self, m, n):
        d = dict(m)
        for i, p in n:
            d[i] = d.get(i, 0) + p
        out = []
        for i, p in d.items():
            k = self.keys[i][0]
            if k == 'ind':
                p = 1                       # [c]^2 = [c]
            elif k == 'fn' and self.keys[i][1] == 'SQRT' and False:
                pass
            out.append((i, p))
        out.sort()
        return tuple(out)

    def pmul(self, a, b):
        if len(a) * len(b) > 4 * MAXTERMS:
            raise Blowup()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        if len(r) > MAXTERMS:
            raise Blowup()
        return r

    def pscale(self, a, c):
        return {m: v * c for m, v in a.items()} if c else {}

    def freeze(self, p):
        return tuple(sorted(p.items()))

    def pconst(self, p):
        if not p:
            return Fr(0)
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def inv(self, p):
        c = self.pconst(p)
        if c is not None:
            return self.const(1 / c) if c != 0 else {}
        # pull out the common monomial factor and the leading coefficient
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            common = {i: min(q, d[i]) for i, q in common.items() if i in d}
        if len(p) == 1:
            (m, c), = p.items()
            r = self.const(1 / c)
            for i, q in m:
                r = self.pmul(r, self.inv_atom(i, q))
            return r
        # any common factor (indicators excluded) can be pulled: inv(x*y) = inv(x)*inv(y)
        common = {i: q for i, q in common.items() if self.keys[i][0] != 'ind'}
        if common:
            rest = {}
            for m, c in p.items():
                d = dict(m)
                for i, q in common.items():
                    d[i] -= q
                rest[tuple(sorted((i, q) for i, q in d.items() if q))] = c
            r = self.inv(rest)
            for i, q in common.items():
                r = self.pmul(r, self.inv_atom(i, q))
            return r
        lead = p[min(p)]
        q = self.pscale(p, 1 / lead)
        a = self.atom(('inv', self.freeze(q)))
        return self.pscale(a, 1 / lead)

    def inv_atom(self, i, q):
        k = self.keys[i]
        if k[0] == 'ind':
            return {((i, 1),): Fr(1)}
        if k[0] == 'inv':
            # inv(inv(x)) = x
            r = self.thaw(k[1])
            out = self.const(1)
            for _ in range(q):
                out = self.pmul(out, r)
            return out
        a = self.atom(('inv', ((((i, 1),), Fr(1)),)))
        (m, c), = a.items()
        return {((m[0][0], q),): Fr(1)}

    def thaw(self, f):
        return dict(f)

    # ---- boolean: returns polynomial in {0,1}
    def ind(self, b):
        if isinstance(b, bool):
            return self.const(1 if b else 0)
        i = b.get_id()
        h = self.bmemo.get(i)
        if h is not None:
            return h[1]
        r = self._ind(b)
        self.bmemo[i] = (b, r)
        return r

    def iand(self, a, b):
        return self.pmul(a, b)

    def _ind(self, b):
        c = conc(b)
        if c is not None:
            return self.const(1 if c else 0)
        if z3.is_and(b):
            r = self.const(1)
            for x in b.children():
                r = self.pmul(r, self.ind(x))
            return r
        if z3.is_or(b):
            r = self.const(1)
            for x in b.children():
                r = self.pmul(r, self.padd(self.const(1), self.ind(x), -1))
            return self.padd(self.const(1), r, -1)
        if z3.is_not(b):
            return self.padd(self.const(1), self.ind(b.arg(0)), -1)
        if z3.is_implies(b):
            a, c = self.ind(b.arg(0)), self.ind(b.arg(1))
            return self.padd(self.const(1), self.pmul(a, self.padd(self.const(1), c, -1)), -1)
        if z3.is_app(b):
            k = b.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                x, y = b.arg(0), b.arg(1)
                isint = x.sort() == z3.IntSort()
                p = self.padd(self.poly(x), self.poly(y), -1)     # x - y
                if k == z3.Z3_OP_LE:
                    return self.le0(p, isint, b)
                if k == z3.Z3_OP_GE:
                    return self.le0(self.pscale(p, -1), isint, b)
                if k == z3.Z3_OP_LT:      # x<y == not (y<=x)
                    return self.padd(self.const(1), self.le0(self.pscale(p, -1), isint, b), -1)
                return self.padd(self.const(1), self.le0(p, isint, b), -1)
            if k == z3.Z3_OP_EQ:
                x, y = b.arg(0), b.arg(1)
                if x.sort() == z3.BoolSort():
                    p, q = self.ind(x), self.ind(y)
                    # p q + (1-p)(1-q)
                    return self.padd(self.pmul(p, q), self.pmul(self.padd(self.const(1), p, -1),
                                                                self.padd(self.const(1), q, -1)))
                p = self.padd(self.poly(x), self.poly(y), -1)
                c = self.pconst(p)
                if c is not None:
                    return self.const(1 if c == 0 else 0)
                lead = p[min(p)]
                p = self.pscale(p, 1 / lead)
                return self.atom(('ind', 'eq', self.freeze(p)), b)
            if k == z3.Z3_OP_DISTINCT and b.num_args() == 2:
                return self.padd(self.const(1), self.ind(b.arg(0) == b.arg(1)), -1)
            if k == z3.Z3_OP_ITE:
                c = self.ind(b.arg(0))
                return self.padd(self.pmul(c, self.ind(b.arg(1))),
                                 self.pmul(self.padd(self.const(1), c, -1), self.ind(b.arg(2))))
            if k == z3.Z3_OP_UNINTERPRETED:
                key = ('ind', 'app', b.decl().name()) + tuple(self.argkey(x) for x in b.children())
                return self.atom(key, b)
        raise Unsupported('canon bool %s' % b.decl().name())

    def le0(self, p, isint, b):
        """[p <= 0]"""
        c = self.pconst(p)
        if c is not None:
            return self.const(1 if c <= 0 else 0)
        nz = [m for m in p if m != ()]
        lead = abs(p[min(nz)])
        p = self.pscale(p, 1 / lead)
        return self.atom(('ind', 'le', self.freeze(p)), b)

    def argkey(self, x):
        if x.sort() == z3.BoolSort():
            return ('b', self.freeze(self.ind(x)))
        return self.freeze(self.poly(x))

    # ---- arithmetic
    def poly(self, e):
        if not is_sym(e):
            return self.const(Fr(int(e)) if isinstance(e, bool) else Fr(e))
        i = e.get_id()
        h = self.memo.get(i)
        if h is not None:
            return h[1]
        r = self._poly(e)
        self.memo[i] = (e, r)
        return r

    def _poly(self, e):
        c = conc(e)
        if c is not None:
            return self.const(c)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in ch:
                r = self.padd(r, self.poly(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for x in ch[1:]:
                r = self.padd(r, self.poly(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.pscale(self.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for x in ch:
                r = self.pmul(r, self.poly(x))
            return r
        if k == z3.Z3_OP_DIV:
            return self.pmul(self.poly(ch[0]), self.inv(self.poly(ch[1])))
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if k == z3.Z3_OP_POWER:
            n = conc(ch[1])
            if n is not None and Fr(n).denominator == 1 and n >= 0:
                r = self.const(1)
                for _ in range(int(n)):
                    r = self.pmul(r, self.poly(ch[0]))
                return r
        if k == z3.Z3_OP_ITE:
            c = self.ind(ch[0])
            a, b = self.poly(ch[1]), self.poly(ch[2])
            # b + [c](a-b)
            return self.padd(b, self.pmul(c, self.padd(a, b, -1)))
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm in self.eng.sums:
                return self.sumpoly(nm, ch)
            key = ('fn', nm) + tuple(self.argkey(x) for x in ch)
            return self.atom(key, e)
        key = ('op', e.decl().name()) + tuple(self.argkey(x) for x in ch)
        return self.atom(key, e)

    def sumpoly(self, nm, args):
        no, nidx, summand = self.eng.sums[nm][:3]
        o, idx, u = args[:no], args[no:no + nidx], args[no + nidx]
        up = self.poly(u)
        c = self.pconst(up)
        if c is not None and c <= 0:
            return {}
        v = z3.Int('bnd!%d' % self.bound)
        self.bound += 1
        try:
            body = self.eng.rewrite(self.eng_tz(summand(v, list(o), list(idx))))
            p = self.poly(body)
        finally:
            self.bound -= 1
        vk = ('fn', v.decl().name())
        vid = self.atoms.get(vk)
        r = {}
        for m, co in p.items():
            out, inn = [], []
            for i, q in m:
                (inn if self.dep(i, vid) else out).append((i, q))
            key = ('sum', self.freeze(up), tuple(self.keyof_rel(inn, vid)))
            if not inn:
                # constant summand: count * co   (count = max(u,0))
                a = self.atom(('fn', 'COUNT', self.freeze(up)))
            else:
                a = self.atom(key)
            t = self.pmul({tuple(sorted(out)): co}, a)
            r = self.padd(r, t)
        return r

    def eng_tz(self, e):
        from .core import tz
        return tz(e, 'real')

    def keyof_rel(self, inn, vid):
        return inn

    def dep(self, i, vid):
        """does atom i mention atom vid?"""
        if vid is None:
            return False
        if i == vid:
            return True
        return self._keydep(self.keys[i], vid)

    def _keydep(self, k, vid):
        kind = k[0]
        if kind == 'fn' or kind == 'op':
            return any(self._frdep(x, vid) for x in k[2:])
        if kind == 'inv':
            return self._frdep(k[1], vid)
        if kind == 'ind':
            if k[1] in ('eq', 'le'):
                return self._frdep(k[2], vid)
            return any(self._frdep(x, vid) for x in k[3:])
        if kind == 'sum':
            return self._frdep(k[1], vid) or any(self.dep(i, vid) for i, q in k[2])
        return False

    def _frdep(self, f, vid):
        if f and f[0] == 'b':
            f = f[1]
        for m, c in f:
            for i, q in m:
                if self.dep(i, vid):
                    return True
        return False

    # ---- clearing denominators
    def clear(self, p):
        """multiply p by the denominators of its inverse atoms; returns (poly, [denominator polys])"""
        dens = []
        for _ in range(12):
            target = None
            for m in p:
                for i, q in m:
                    if self.keys[i][0] == 'inv':
                        target = i
                        break
                if target is not None:
                    break
            if target is None:
                return p, dens
            # choose the 'outermost' inverse: one not mentioned inside other atoms of p
            d = self.thaw(self.keys[target][1])
            mx = max(dict(m).get(target, 0) for m in p)
            r = {}
            powers = [self.const(1)]
            for _ in range(mx):
                powers.append(self.pmul(powers[-1], d))
            for m, c in p.items():
                dd = dict(m)
                q = dd.pop(target, 0)
                t = self.pmul({tuple(sorted(dd.items())): c}, powers[mx - q])
                r = self.padd(r, t)
            dens.append(d)
            p = r
            if not p:
                return p, dens
        raise Blowup()

    def to_z3(self, p):
        """polynomial back to a z3 term (for side conditions)"""
        t = z3.RealVal(0)
        for m, c in p.items():
            x = z3.RealVal(c)
            for i, q in m:
                a = self.atom_z3(i)
                for _ in range(q):
                    x = x * a
            t = t + x
        return t

    def atom_z3(self, i):
        k = self.keys[i]
        if k[0] == 'ind':
            e = self.ind_z3(k, i)
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        if k[0] == 'inv':
            return 1 / self.to_z3(self.thaw(k[1]))
        e = self.expr.get(i)
        if e is None:
            raise Unsupported('no term for atom')
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def ind_z3(self, k, i):
        if k[1] == 'eq':
            return self.to_z3(self.thaw(k[2])) == 0
        if k[1] == 'le':
            return self.to_z3(self.thaw(k[2])) <= 0
        return self.expr[i]
