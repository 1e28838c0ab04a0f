"""Value domain of the analyses: gated value numbers in polynomial normal form.

A value is a polynomial (rational coefficients) over interned atoms.  Atoms are
program parameters, loop variables, array reads and gated (if-then-else)
values.  Two expressions that compute the same thing by reassociating,
distributing, reordering, naming intermediate results or hoisting common parts
out of branches get the same normal form.
"""
from fractions import Fraction

_atoms = []          # id -> key
_ids = {}            # key -> id


def atom(key):
    i = _ids.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        _ids[key] = i
    return i


def key(i):
    return _atoms[i]


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Poly) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    def __pow__(self, n):
        r = P(1)
        for _ in range(n):
            r = r * self
        return r

    def __add__(self, o):
        o = P(o)
        if not self.m:
            return o
        if not o.m:
            return self
        a, b = (self.m, o.m) if len(self.m) >= len(o.m) else (o.m, self.m)
        r = dict(a)
        for k, v in b.items():
            n = r.get(k, 0) + v
            if n:
                r[k] = n
            else:
                del r[k]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mm(k1, k2)
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                elif k in r:
                    del r[k]
        return Poly(r)

    __rmul__ = __mul__

    def const(self):
        """The value as a Fraction if constant, else None."""
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1:
            v = self.m.get(())
            if v is not None:
                return v
        return None

    def atoms(self):
        s = set()
        for k in self.m:
            for a, _ in k:
                s.add(a)
        return s

    def single(self):
        """The atom id if the value is exactly one atom, else None."""
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return None

    def lin(self, a):
        """(coefficient polynomial of atom a, rest); None if not linear in a."""
        co, rest = {}, {}
        for k, v in self.m.items():
            e = 0
            for x, p in k:
                if x == a:
                    e = p
            if e == 0:
                rest[k] = v
            elif e == 1:
                co[tuple((x, p) for x, p in k if x != a)] = v
            else:
                return None
        return Poly(co), Poly(rest)

    def __repr__(self):
        return show(self)


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, p in b:
        n = d.get(x, 0) + p
        if n:
            d[x] = n
        else:
            del d[x]
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        if x == int(x):
            return P(int(x))
        return P(Fraction(repr(x)))
    raise TypeError("not a number: %r" % (x,))


def A(*k):
    return Poly({((atom(tuple(k)), 1),): Fraction(1)})


def aid(i):
    return Poly({((i, 1),): Fraction(1)})


# ---------------------------------------------------------------- booleans
# ('T',) ('F',) ('lt', Poly)  poly < 0 ; ('eq', Poly) poly == 0
# ('not', lit) ('and', frozenset) ('or', frozenset)
T = ("T",)
F = ("F",)


def b_lt0(p, integer=True):
    c = p.const()
    if c is not None:
        return T if c < 0 else F
    if integer:
        # integer form: choose a canonical representative between p<0 and
        # its complement -p-1<0
        n = -p - 1
        if _ord(n) < _ord(p):
            return ("not", ("lt", n))
    return ("lt", p)


_ordc = {}


def _ord(p):
    r = _ordc.get(p)
    if r is None:
        r = _ordc[p] = sorted((tuple((str(_atoms[a]), e) for a, e in k), v) for k, v in p.m.items()).__repr__()
    return r


def b_eq0(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    s = p.single()
    if s is not None and _atoms[s][0] == "bool":
        return b_not(_atoms[s][1])
    n = -p
    if _ord(n) < _ord(p):
        p = n
    return ("eq", p)


def b_not(b):
    if b == T:
        return F
    if b == F:
        return T
    if b[0] == "not":
        return b[1]
    if b[0] == "and":
        return b_or(*[b_not(x) for x in b[1]])
    if b[0] == "or":
        return b_and(*[b_not(x) for x in b[1]])
    return ("not", b)


def b_and(*bs):
    s = set()
    for b in bs:
        if b == F:
            return F
        if b == T:
            continue
        if b[0] == "and":
            s |= b[1]
        else:
            s.add(b)
    for x in list(s):
        if b_not(x) in s:
            return F
    # absorption: drop or-clauses that contain another member; unit-resolve
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x[0] == "or" and x in s:
                if x[1] & s:
                    s.discard(x)
                    continue
                rem = [y for y in x[1] if b_not(y) not in s]
                if len(rem) != len(x[1]):
                    s.discard(x)
                    n = b_or(*rem)
                    if n == F:
                        return F
                    if n != T:
                        if n[0] == "and":
                            s |= n[1]
                        else:
                            s.add(n)
                    changed = True
    for x in list(s):
        if b_not(x) in s:
            return F
    if not s:
        return T
    if len(s) == 1:
        return next(iter(s))
    return ("and", frozenset(s))


def b_or(*bs):
    s = set()
    for b in bs:
        if b == T:
            return T
        if b == F:
            continue
        if b[0] == "or":
            s |= b[1]
        else:
            s.add(b)
    for x in list(s):
        if b_not(x) in s:
            return T
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x[0] == "and" and x in s:
                if x[1] & s:
                    s.discard(x)
                    continue
                rem = [y for y in x[1] if b_not(y) not in s]
                if len(rem) != len(x[1]):
                    s.discard(x)
                    n = b_and(*rem)
                    if n == T:
                        return T
                    if n[0] == "or":
                        s |= n[1]
                    elif n != F:
                        s.add(n)
                    changed = True
        # (A&c)|(A&!c) -> A
        ands = [x for x in s if x[0] == "and"]
        done = False
        for i in range(len(ands)):
            for j in range(i + 1, len(ands)):
                d1 = ands[i][1] - ands[j][1]
                d2 = ands[j][1] - ands[i][1]
                if len(d1) == 1 and len(d2) == 1 and b_not(next(iter(d1))) in d2:
                    s.discard(ands[i])
                    s.discard(ands[j])
                    n = b_and(*(ands[i][1] & ands[j][1]))
                    if n == T:
                        return T
                    if n[0] == "or":
                        s |= n[1]
                    else:
                        s.add(n)
                    done = True
                    break
            if done:
                break
        changed = changed or done
    for x in list(s):
        if b_not(x) in s:
            return T
    if not s:
        return F
    if len(s) == 1:
        return next(iter(s))
    return ("or", frozenset(s))


def b_val(b):
    if b == T:
        return ONE
    if b == F:
        return ZERO
    return A("bool", b)


def truth(v):
    """Boolean of a numeric value (v != 0)."""
    return b_not(b_eq0(v))


# --------------------------------------------------------------- gated value
def ite(c, x, y):
    if c == T:
        return x
    if c == F:
        return y
    if x == y:
        return x
    if c[0] == "not":
        c, x, y = c[1], y, x
    elif c[0] in ("and", "or"):
        n = b_not(c)
        if repr(sorted(map(bshow, n[1])) if n[0] in ("and", "or") else n) < \
                repr(sorted(map(bshow, c[1]))):
            c, x, y = n, y, x
    # max / min
    if c[0] == "lt":
        if c[1] == x - y:      # x<y ? x : y
            return mmin(x, y)
        if c[1] == y - x:      # y<x ? x : y
            return mmax(x, y)
        if c[1] == x - y - 1:  # x<=y ? x : y
            return mmin(x, y)
        if c[1] == y - x - 1:  # y<=x ? x : y
            return mmax(x, y)
    # a gate on two reads of the same array is a read at a gated index
    rx, ry = x.single(), y.single()
    if rx is not None and ry is not None:
        kx, ky = _atoms[rx], _atoms[ry]
        if kx[0] == "rd" and ky[0] == "rd" and kx[1] == ky[1] and kx[3:] == ky[3:]:
            return A(*(("rd", kx[1], ite(c, kx[2], ky[2])) + kx[3:]))
    common = {k: v for k, v in x.m.items() if y.m.get(k) == v}
    if common:
        cp = Poly(common)
        x, y = x - cp, y - cp
    else:
        cp = ZERO
    # nested gates on the same condition
    x = cofactor(x, {c: True}) if _mentions(x, c) else x
    y = cofactor(y, {c: False}) if _mentions(y, c) else y
    if x == y:
        return cp + x
    return cp + A("ite", c, x, y)


def mmax(x, y):
    cx, cy = x.const(), y.const()
    if cx is not None and cy is not None:
        return x if cx >= cy else y
    if x == y:
        return x
    d = (x - y).const()
    if d is not None:
        return x if d >= 0 else y
    a = sorted([x, y], key=_ord)
    return A("max", a[0], a[1])


def mmin(x, y):
    return -mmax(-x, -y)


def _mentions(p, c):
    for a in p.atoms():
        k = _atoms[a]
        if k[0] == "ite":
            if k[1] == c or _mentions(k[2], c) or _mentions(k[3], c):
                return True
    return False


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb:
        q = abs(int(ca)) // abs(int(cb))
        return P(q if (ca >= 0) == (cb > 0) else -q)
    return A("idiv", a, b)


def imod(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return ZERO
    if ca is not None and cb:
        return P(int(ca) - int(cb) * int(idiv(a, b).const()))
    if cb == 2:
        # sign-insensitive parity: reduce coefficients modulo 2
        m = {}
        ok = True
        for k, v in a.m.items():
            if v.denominator != 1:
                ok = False
                break
            if v % 2:
                m[k] = Fraction(1)
        if ok:
            q = Poly(m)
            if q.const() is not None:
                return P(int(q.const()) % 2)
            return A("mod", q, b)
    return A("mod", a, b)


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return A("inv", p)
        return P(1 / c)
    if len(p.m) == 1:
        (k, v), = p.m.items()
        return Poly({tuple((a, -e) for a, e in k): 1 / v})
    # normalise content so that 1/(2x) == 1/2 * 1/x
    return A("inv", p)


# --------------------------------------------------------------- substitution
class Subst:
    """Simultaneous substitution on polynomials, booleans and pointer bases.

    amap: atom id -> Poly; lit(b) -> True/False/None decides literals;
    base(b) -> new base or None rewrites pointer bases; rd(key)->Poly or None.
    """

    def __init__(self, amap=None, lit=None, base=None, rd=None):
        self.amap = amap or {}
        self.lit = lit
        self.base = base
        self.rd = rd
        self.pm = {}
        self.bm = {}
        self.am = {}

    def poly(self, p):
        r = self.pm.get(p)
        if r is not None:
            return r
        out = None
        changed = {}
        for a in p.atoms():
            n = self.at(a)
            if n is not None:
                changed[a] = n
        if not changed:
            out = p
        else:
            out = ZERO
            same = {}
            for k, v in p.m.items():
                if not any(a in changed for a, _ in k):
                    same[k] = v
                    continue
                t = P(v)
                keep = []
                for a, e in k:
                    if a in changed:
                        f = changed[a]
                        if e < 0:
                            f = inv(f)
                            e = -e
                        for _ in range(e):
                            t = t * f
                    else:
                        keep.append((a, e))
                if keep:
                    t = t * Poly({tuple(keep): Fraction(1)})
                out = out + t
            out = out + Poly(same)
        self.pm[p] = out
        return out

    def at(self, a):
        """New value of atom a, or None when unchanged."""
        if a in self.amap:
            return self.amap[a]
        if a in self.am:
            return self.am[a]
        k = _atoms[a]
        r = None
        t = k[0]
        if t == "ite":
            c = self.b(k[1])
            if c == T:
                r = self.poly(k[2])
            elif c == F:
                r = self.poly(k[3])
            else:
                x, y = self.poly(k[2]), self.poly(k[3])
                if c != k[1] or x != k[2] or y != k[3]:
                    r = ite(c, x, y)
        elif t == "rd":
            b = self.bs(k[1])
            i = self.poly(k[2])
            nk = ("rd", b, i) + k[3:]
            if self.rd is not None:
                r = self.rd(nk)
            if r is None and (b != k[1] or i != k[2]):
                r = A(*nk)
        elif t == "bool":
            c = self.b(k[1])
            if c != k[1]:
                r = b_val(c)
        elif t in ("idiv", "mod", "max", "inv"):
            args = [self.poly(x) for x in k[1:]]
            if tuple(args) != k[1:]:
                r = {"idiv": idiv, "mod": imod, "max": mmax, "inv": inv}[t](*args)
        elif t in ("fn", "red"):
            args = tuple(self.poly(x) if isinstance(x, Poly) else x for x in k[2:])
            if args != k[2:]:
                r = A(*(k[:2] + args))
        self.am[a] = r
        return r

    def b(self, b):
        r = self.bm.get(b)
        if r is not None:
            return r
        t = b[0]
        if t in ("T", "F"):
            r = b
        else:
            d = self.lit(b) if self.lit is not None else None
            if d is not None:
                r = T if d else F
            elif t == "lt":
                p = self.poly(b[1])
                r = b if p == b[1] else b_lt0(p)
                if r != b and self.lit is not None and r not in (T, F):
                    d = self._dl(r)
                    if d is not None:
                        r = d
            elif t == "eq":
                p = self.poly(b[1])
                r = b if p == b[1] else b_eq0(p)
                if r != b and self.lit is not None and r not in (T, F):
                    d = self._dl(r)
                    if d is not None:
                        r = d
            elif t == "not":
                r = b_not(self.b(b[1]))
            elif t == "and":
                r = b_and(*[self.b(x) for x in b[1]])
            elif t == "or":
                r = b_or(*[self.b(x) for x in b[1]])
            else:
                r = b
        self.bm[b] = r
        return r

    def _dl(self, r):
        if r[0] == "not":
            d = self.lit(r[1])
            return None if d is None else (F if d else T)
        d = self.lit(r)
        return None if d is None else (T if d else F)

    def bs(self, base):
        if self.base is not None:
            n = self.base(base)
            if n is not None:
                return n
        if isinstance(base, tuple) and base and base[0] == "ite":
            c = self.b(base[1])
            if c == T:
                return self.bs(base[2])
            if c == F:
                return self.bs(base[3])
            x, y = self.bs(base[2]), self.bs(base[3])
            return base_ite(c, x, y)
        return base


def base_ite(c, x, y):
    if x == y or c == T:
        return x
    if c == F:
        return y
    if c[0] == "not":
        c, x, y = c[1], y, x
    return ("ite", c, x, y)


def cofactor(p, assign):
    """Specialise p under {literal: bool}."""
    def lit(b):
        return assign.get(b)
    s = Subst(lit=lit)
    return s.poly(p)


# ------------------------------------------------------------------- printing
def ashow(i):
    k = _atoms[i]
    t = k[0]
    if t in ("p", "lv", "c"):
        return str(k[1])
    if t == "rd":
        v = "'" * 0
        tag = "".join(sorted(k[3])) if len(k) > 3 and k[3] else ""
        return "%s%s[%s]" % (base_show(k[1]), "@" + tag if tag else "", show(k[2]))
    if t == "ite":
        return "(%s ? %s : %s)" % (bshow(k[1]), show(k[2]), show(k[3]))
    if t == "bool":
        return "[%s]" % bshow(k[1])
    return "%s(%s)" % (t, ", ".join(show(x) if isinstance(x, Poly) else str(x) for x in k[1:]))


def base_show(b):
    if isinstance(b, tuple):
        if b[0] == "ite":
            return "{%s?%s:%s}" % (bshow(b[1]), base_show(b[2]), base_show(b[3]))
        return ".".join(str(x) for x in b)
    return str(b)


def bshow(b):
    t = b[0]
    if t in "TF":
        return t
    if t == "lt":
        return "%s < 0" % show(b[1])
    if t == "eq":
        return "%s == 0" % show(b[1])
    if t == "not":
        if b[1][0] == "lt":
            return "%s >= 0" % show(b[1][1])
        if b[1][0] == "eq":
            return "%s != 0" % show(b[1][1])
        return "!(%s)" % bshow(b[1])
    if t in ("and", "or"):
        return "(%s)" % ((" && " if t == "and" else " || ").join(sorted(bshow(x) for x in b[1])))
    return str(b)


def show(p, limit=400):
    if not p.m:
        return "0"
    out = []
    for k, v in p.m.items():
        s = "*".join(ashow(a) + ("" if e == 1 else "^%d" % e) for a, e in k)
        if not s:
            s = str(v)
        elif v == -1:
            s = "-" + s
        elif v != 1:
            s = "%s*%s" % (v, s)
        out.append(s)
    out.sort()
    r = " + ".join(out)
    return r
