"""Equality of symbolic values under the facts of a path, by case analysis
over the undecided gates."""
from fractions import Fraction

from . import terms as t
from .terms import P, A, Poly

FORMULA = {"lt", "eq", "not", "and", "or", "T", "F"}


class Simp(t.Subst):
    """Rewrites a polynomial with every gate the path decides."""

    def __init__(self, path, amap=None):
        t.Subst.__init__(self, amap=amap, lit=path.prove)
        self.path = path

    def obj(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in FORMULA:
                return self.b(x)
            n = tuple(self.obj(y) for y in x)
            return n if n != x else x
        return x

    def at(self, a):
        if a in self.amap:
            return self.amap[a]
        if a in self.am:
            return self.am[a]
        k = t.key(a)
        if k[0] in ("ite", "bool", "idiv", "mod", "max", "inv"):
            r = t.Subst.at(self, a)
            if k[0] == "max":
                v = A(*k) if r is None else r
                s = v.single()
                if s is not None and t.key(s)[0] == "max":
                    x, y = t.key(s)[1:]
                    if self.path.nonneg(x - y):
                        r = x
                    elif self.path.nonneg(y - x):
                        r = y
                    self.am[a] = r
            return r
        self.am[a] = None
        n = (k[0],) + tuple(self.obj(x) for x in k[1:])
        r = None
        if n != k:
            from .pyfacts import fdiv, FLOATS
            r = fdiv(*n[1:]) if n[0] == "fdiv" else A(*n)
            if a in FLOATS and r.single() is not None:
                FLOATS.add(r.single())
        if k[0] == "fdiv":
            s = a if r is None else r.single()
            kk = t.key(s) if s is not None else ("",)
            if kk[0] == "fdiv":
                q = quotient(self.path, kk[1], kk[2])
                if q is not None:
                    r = q
        self.am[a] = r
        return r


def quotient(path, a, b):
    """a // b when a = q*b + r with 0 <= r < b by the facts."""
    for v in b.atoms():
        li = b.lin(v)
        if li is None or li[0].const() != 1:
            continue
        r, q = a, P(0)
        for _ in range(8):
            top = max((dict(k).get(v, 0) for k in r.m), default=0)
            if top < 1:
                break
            lead = Poly({tuple((x, e) for x, e in k if x != v): c for k, c in r.m.items() if dict(k).get(v, 0) == top})
            lead = lead * Poly({((v, 1),): Fraction(1)}) ** (top - 1)
            q = q + lead
            r = r - lead * b
        else:
            continue
        if path.nonneg(r) and path.nonneg(b - 1 - r):
            return q
    return None


def lits_of(p, seen=None, out=None):
    """Undecided atomic conditions of p, gates first."""
    if out is None:
        out, seen = [], set()

    def form(b):
        if b[0] in ("lt", "eq"):
            if not _bv(b[1]):
                if b not in out:
                    out.append(b)
            poly(b[1])
        elif b[0] == "not":
            form(b[1])
        elif b[0] in ("and", "or"):
            for x in b[1]:
                form(x)

    def obj(x):
        if isinstance(x, Poly):
            poly(x)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in FORMULA:
                form(x)
            else:
                for y in x:
                    obj(y)

    def poly(q):
        for a in q.atoms():
            if a in seen:
                continue
            seen.add(a)
            k = t.key(a)
            if k[0] == "max":
                b = lt0(k[1] - k[2])
                if b[0] == "not":
                    b = b[1]
                if not _bv(b[1] if b[0] == "lt" else P(0)) and b[0] == "lt" and b not in out:
                    out.append(b)
            for x in k[1:]:
                obj(x)
    poly(p)
    return out


def lt0(p):
    from .pyfacts import is_int
    return t.b_lt0(p, is_int(p))


_GT = {}


def gates(p):
    """Nesting of undecided values inside a polynomial."""
    r = _GT.get(p)
    if r is None:
        r = 0
        for a in p.atoms():
            k = t.key(a)
            g = max([_gobj(x) for x in k[1:]] or [0])
            r = max(r, g + (1 if k[0] in ("max", "ite", "fdiv", "bool") else 0))
        _GT[p] = r
    return r


def _gobj(x):
    if isinstance(x, Poly):
        return gates(x)
    if isinstance(x, (tuple, frozenset)):
        return max([_gobj(y) for y in x] or [0])
    return 0


_BV = {}


def _bv(p):
    r = _BV.get(p)
    if r is None:
        r = _BV[p] = _has(p)
    return r


def _has(x):
    if isinstance(x, Poly):
        return any(t.key(a)[0] == "bv" or any(_has(y) for y in t.key(a)[1:]) for a in x.atoms())
    if isinstance(x, (tuple, frozenset)):
        return any(_has(y) for y in x)
    return False


class Branch:
    """The facts of a path extended by one condition, undone on exit."""

    def __init__(self, path, b, v=True):
        self.path, self.b, self.v = path, b, v

    def __enter__(self):
        p = self.path
        self.save = (len(p.facts), len(p.strict), dict(p.lits), p._memo, dict(p.bounds), set(p._touched))
        p._memo = {}
        if self.b is not None:
            p.assume(self.b, self.v)
        return self

    def __exit__(self, *a):
        p = self.path
        n, m, lits, memo, bnd, tch = self.save
        del p.facts[n:]
        del p.strict[m:]
        p.lits, p._memo, p.bounds, p._touched = lits, memo, bnd, tch


def unsqrt(p):
    """sqrt(x)^2 = x (the argument of a real square root is not negative)."""
    if not any(t.key(a)[0] == "fn" and t.key(a)[1] == "sqrt" for a in p.atoms()):
        return p
    out = P(0)
    for k, c in p.m.items():
        q = P(c)
        rest = []
        for a, e in k:
            kk = t.key(a)
            if kk[0] == "fn" and kk[1] == "sqrt" and abs(e) > 1:
                x = kk[2] if e > 0 else t.inv(kk[2])
                for _ in range(abs(e) // 2):
                    q = q * x
                e = (abs(e) % 2) * (1 if e > 0 else -1)
            if e:
                rest.append((a, e))
        out = out + q * Poly({tuple(rest): Fraction(1)})
    return out


def cleared(d):
    """d times a nonzero factor, without denominators."""
    for _ in range(12):
        d = unsqrt(d)
        a = next((a for a in d.atoms() if t.key(a)[0] == "inv"), None)
        if a is None:
            break
        p = t.key(a)[1]
        top = max(dict(k).get(a, 0) for k in d.m)
        low = min(dict(k).get(a, 0) for k in d.m)
        if low < 0:
            break
        pw = [P(1)]
        for _ in range(top):
            pw.append(pw[-1] * p)
        out = P(0)
        for k, c in d.m.items():
            kd = dict(k)
            e = kd.pop(a, 0)
            out = out + Poly({tuple(sorted(kd.items())): c}) * pw[top - e]
        d = out
    return unsqrt(d)


def infeasible(path):
    """The facts contradict each other (cheap check)."""
    for f in path.facts:
        u = path.upper(f)
        if u is not None and u < 0:
            return True
    return False


def differs(path, p, q, depth=16):
    """None when p == q in every case, else (p, q, [conditions]) of a case
    in which they are not shown equal."""
    s = Simp(path)
    p, q = s.poly(p), s.poly(q)
    d = p - q
    if not d.m:
        return None
    d = s.poly(d)
    if not d.m:
        return None
    ls = lits_of(d)
    if ls and depth > 0:
        b = min(ls, key=lambda b: (gates(b[1]), len(b[1].m)))
        for v in (True, False):
            with Branch(path, b, v):
                if contradiction(path, b, v):
                    continue
                r = differs(path, p, q, depth - 1)
            if r is not None:
                return (r[0], r[1], [(b, v)] + r[2])
        return None
    if path.prove(t.b_eq0(d)) is True or not cleared(d).m:
        return None
    if contradictory(path):
        return None
    m = equated(path, d) if depth > 0 else None
    if m:
        e = Simp(path, m)
        with Branch(path, None):
            for f in list(path.facts):
                g = e.poly(f)
                if g != f and g.const() is None:
                    path.facts.append(g)
            path._memo = {}
            return differs(path, e.poly(p), e.poly(q), depth - 1)
    if depth > 0:
        m = congruent(path, d, depth)
        if m:
            d = Simp(path, m).poly(d)
            if not d.m or not cleared(d).m:
                return None
    return (p, q, [])


BOUND = {"rfft": 40, "irfft": 41}


def congruent(path, d, depth):
    """Transforms in d that are equal because what they transform is."""
    m, seen = {}, []
    for a in sorted(d.atoms()):
        k = t.key(a)
        if k[0] in VALUE:
            for b in seen:
                if same_args(path, t.key(b), k):
                    m[a] = A(*t.key(b))
                    break
            else:
                seen.append(a)
            continue
        if k[0] != "fn" or k[1] not in BOUND:
            continue
        for b in seen:
            j = t.key(b)
            if j[:2] != k[:2] or k[3:] != j[3:]:
                continue
            bv = A("ix", "transformed %d" % BOUND[k[1]])
            sub = t.Subst(amap={A("bv", BOUND[k[1]]).single(): bv})
            n = k[4] if k[1] == "rfft" else P(1) + t.A("fdiv", k[3], P(2))
            with Branch(path, None):
                path.bounds[bv.single()] = (Fraction(0), None)
                path.facts.append(n - 1 - bv)
                path._memo = {}
                r = differs(path, sub.poly(k[2]), sub.poly(j[2]), depth - 1)
            if r is None:
                m[a] = A(*j)
                break
        else:
            seen.append(a)
    return m


def equated(path, d):
    """Integers in d that the facts fix, with their value."""
    from .pyfacts import is_int
    m = {}
    inner = set()
    deep(d, inner)
    for a in sorted(inner):
        k = t.key(a)
        p = A(*k)
        if k[0] in ("bv", "ite", "fn") + VALUE or not is_int(p):
            continue
        lo = path.abnd(a)[0]
        if lo is not None and path.nonneg(P(lo) - p):
            m[a] = P(lo)
    if not m:
        for f in path.facts:
            for k, c in f.m.items():
                if len(k) == 1 and k[0][1] == 1 and abs(c) == 1 and k[0][0] in inner:
                    p = A(*t.key(k[0][0]))
                    v = p - f * c
                    if k[0][0] not in v.atoms() and is_int(p) and path.nonneg(-f):
                        return {k[0][0]: v}
    return m


def deep(x, out):
    """Every atom of a formula."""
    if isinstance(x, Poly):
        for a in x.atoms():
            if a not in out:
                out.add(a)
                deep(t.key(a)[1:], out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            deep(y, out)


VALUE = ("in", "st", "rec", "bw", "stale", "gm", "gf", "ga")


def same_args(path, j, k):
    """Two values at provably equal indices."""
    if len(j) != len(k):
        return False
    for x, y in zip(j, k):
        if x == y:
            continue
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return False
        d = x - y
        if path.prove(t.b_eq0(d)) is not True and not (path.nonneg(d) and path.nonneg(-d)):
            return False
    return True


def contradiction(path, b, v):
    """Assuming b==v contradicts the earlier facts."""
    if b[0] == "lt":
        from .pyfacts import is_int
        q = b[1]
        if is_int(q):
            return path.nonneg(q) if v else path.nonneg(-q - 1)
    return False


def contradictory(path):
    """Some pair of the facts is inconsistent: f >= 0 and -f - c >= 0."""
    for f in path.facts:
        if path.nonneg(-f - 1, 3):
            return True
    return False


def show_case(r):
    p, q, cs = r
    c = " and ".join(t.bshow(b if v else t.b_not(b)) for b, v in cs)
    return "found %s, expected %s%s" % (t.show(p, 200), t.show(q, 200), " when " + c[:300] if c else "")
