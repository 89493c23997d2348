"""Terms: z3 sorts, the real-number normal form, rotations, rigid motions."""
from fractions import Fraction
import z3

Str = z3.DeclareSort("Str")
RotS = z3.DeclareSort("Rot")
IntS, BoolS, RealS = z3.IntSort(), z3.BoolSort(), z3.RealSort()

_keep = {}


class Unsupported(Exception):
    """The verifier cannot handle this construct: the check falls back to the bounded harness."""


def pin(t):
    _keep[t.get_id()] = t
    return t.get_id()


_cnt = [0]


def fresh_name(base):
    _cnt[0] += 1
    return "%s!%d" % (base, _cnt[0])


def fresh(base, sort):
    return z3.Const(fresh_name(base), sort)


def reset_names():
    _cnt[0] = 0


def simp(t):
    return z3.simplify(t)


def I(n):
    return z3.IntVal(n)


def as_int(t):
    """python int of a constant Int term, or None"""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    s = simp(t)
    return s.as_long() if z3.is_int_value(s) else None


def as_bool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = simp(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


# ---------------------------------------------------------------- strings
_lits = {}


def str_lit(s):
    if s not in _lits:
        _lits[s] = z3.Const("lit:" + s, Str)
    return _lits[s]


def lit_axioms():
    return [z3.Distinct(*_lits.values())] if len(_lits) > 1 else []


def harvested_literals():
    return list(_lits)


# ---------------------------------------------------------------- reals
_mon = {}
MAXDEG = 6


def mon_fn(d):
    if d not in _mon:
        _mon[d] = z3.Function("mul%d" % d, *([RealS] * d), RealS)
    return _mon[d]


def mon_axioms():
    ax = []
    for d in (2, 3):
        f = mon_fn(d)
        xs = [z3.Real("mx%d" % i) for i in range(d)]
        for i in range(d - 1):
            ys = list(xs)
            ys[i], ys[i + 1] = ys[i + 1], ys[i]
            ax.append(z3.ForAll(xs, f(*xs) == f(*ys), patterns=[f(*xs)]))
        ax.append(z3.ForAll(xs, z3.Implies(z3.Or([v == 0 for v in xs]), f(*xs) == 0), patterns=[f(*xs)]))
    return ax


rinv_f = z3.Function("recip", RealS, RealS)


class Poly:
    """A real number in normal form: sum of rational coefficient times product of atoms."""
    __slots__ = ("m", "_z")

    def __init__(self, m):
        self.m = m
        self._z = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(t):
        return Poly({(pin(t),): Fraction(1)})

    def is_const(self):
        return all(k == () for k in self.m)

    def const_value(self):
        return self.m.get((), Fraction(0)) if self.is_const() else None

    def key(self):
        return tuple(sorted(self.m.items()))

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()} if c else {})

    def __neg__(self):
        return self.scale(Fraction(-1))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _sortmon(k1 + k2)
                s = r.get(k, 0) + v1 * v2
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        if len(r) > 4000:
            raise Unsupported("polynomial too large")
        return Poly(r)

    def z(self):
        if self._z is None:
            ts = []
            for k in sorted(self.m, key=lambda k: (len(k), [_akey(a) for a in k])):
                c = self.m[k]
                if k == ():
                    ts.append(z3.RealVal(str(c)))
                    continue
                if len(k) == 1:
                    t = _keep[k[0]]
                else:
                    t = mon_fn(len(k))(*[_keep[a] for a in k])
                ts.append(t if c == 1 else z3.RealVal(str(c)) * t)
            self._z = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
            pin(self._z)
        return self._z


_skel = {}


def skeleton(t):
    """the shape of an atom: which fields and functions, whatever the array versions and indices"""
    k = t.get_id()
    if k in _skel:
        return _skel[k]
    u, n = t, 0
    while z3.is_app(u) and u.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and n < 60:
        u = u.arg(0)
        n += 1
    r = "?"
    if z3.is_app(u):
        r = u.decl().name().split("!")[0]
        if u.num_args():
            r += "(" + ",".join(skeleton(c) for c in u.children()) + ")"
    pin(t)
    _skel[k] = r
    return r


def _akey(a):
    return (skeleton(_keep[a]), a)


def _sortmon(k):
    return tuple(sorted(k, key=_akey))


def head(t):
    """a name for the outermost function, stable across array versions"""
    n = 0
    while z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and n < 60:
        t = t.arg(0)
        n += 1
    if z3.is_app(t):
        return t.decl().name().split("!")[0]
    return "?"


_pcache = {}


def poly(t):
    """normal form of a z3 Real term"""
    i = t.get_id()
    if i in _pcache and _pcache[i][0].eq(t):
        return _pcache[i][1]
    s = simp_arr(t)
    r = _poly(s)
    _pcache[i] = (t, r)
    return r


def simp_arr(t):
    return z3.simplify(t, som=False, arith_lhs=False)


def _poly(s):
    if z3.is_rational_value(s):
        return Poly.const(Fraction(s.numerator_as_long(), s.denominator_as_long()))
    if z3.is_app(s):
        k = s.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = Poly.const(0)
            for a in s.children():
                r = r + _poly(a)
            return r
        if k == z3.Z3_OP_SUB:
            r = _poly(s.arg(0))
            for a in s.children()[1:]:
                r = r - _poly(a)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -_poly(s.arg(0))
        if k == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for a in s.children():
                r = r * _poly(a)
            return r
        n = s.decl().name()
        if n.startswith("mul") and n[3:].isdigit():
            r = Poly.const(1)
            for a in s.children():
                r = r * _poly(a)
            return r
        if len(n) == 4 and n.startswith("rm") and n[2:].isdigit():
            w = _rot(s.arg(0))
            if len(w.w) != 1 or w.w[0][1]:
                e = [Poly.const(1 if q == int(n[3]) else 0) for q in range(3)]
                return w.apply(e)[int(n[2])]
        if k == z3.Z3_OP_UNINTERPRETED and s.num_args() > 0:
            ch = [normal(c) for c in s.children()]
            if not all(x.eq(y) for x, y in zip(ch, s.children())):
                return Poly.atom(s.decl()(*ch))
    return Poly.atom(s)


def normal(t):
    """normal form of a Real or Rot term, other terms as they are"""
    if t.sort() == RealS:
        return _poly(t).z()
    if t.sort() == RotS:
        return _rot(t).z()
    return t


# ---------------------------------------------------------------- rotations
rmul_f = z3.Function("rmul", RotS, RotS, RotS)
rinv_rot = z3.Function("rinv", RotS, RotS)
r_id = z3.Const("rid", RotS)
raa_f = z3.Function("raa", RealS, RealS, RealS, RealS, RotS)      # axis, angle
reuler_f = z3.Function("reuler", RealS, RealS, RealS, RotS)
rexp_f = z3.Function("rexp", RealS, RealS, RealS, RotS)
mij_f = [[z3.Function("rm%d%d" % (i, j), RotS, RealS) for j in range(3)] for i in range(3)]
sa_f = [z3.Function("logrot%d" % i, RotS, RealS) for i in range(3)]


class Rot:
    """product of atomic rotations, as a word"""
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = tuple(w)  # of (atom z3 term, inverted?)

    @staticmethod
    def ident():
        return Rot(())

    @staticmethod
    def atom(t):
        pin(t)
        return Rot([(t, False)])

    def __mul__(self, o):
        w = list(self.w)
        for a in o.w:
            if w and w[-1][0].eq(a[0]) and w[-1][1] != a[1]:
                w.pop()
            else:
                w.append(a)
        return Rot(w)

    def inv(self):
        return Rot([(t, not i) for t, i in reversed(self.w)])

    def z(self):
        if not self.w:
            return r_id
        ts = [rinv_rot(t) if i else t for t, i in self.w]
        r = ts[0]
        for t in ts[1:]:
            r = rmul_f(r, t)
        return r

    def apply(self, v):
        for t, inv in reversed(self.w):
            m = [[Poly.atom(mij_f[j][i](t) if inv else mij_f[i][j](t)) for j in range(3)] for i in range(3)]
            v = [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)]
        return v


def rot(t):
    """normal form of a z3 Rot term"""
    t = simp_arr(t)
    return _rot(t)


def _rot(t):
    if t.eq(r_id):
        return Rot.ident()
    if z3.is_app(t):
        n = t.decl().name()
        if n == "rmul":
            return _rot(t.arg(0)) * _rot(t.arg(1))
        if n == "rinv":
            return _rot(t.arg(0)).inv()
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            ch = [normal(c) for c in t.children()]
            if not all(x.eq(y) for x, y in zip(ch, t.children())):
                t = t.decl()(*ch)
    return Rot.atom(t)


def rot_axioms():
    return []
