"""Scalars, facts and path decisions of the Python abstract interpreter.

A path is one assignment of truth values to the conditions the facts do not
settle.  Facts are linear inequalities between program quantities; they are
propagated by bounds and substitution only (no solver is involved).
"""
import math
from fractions import Fraction

from . import terms as t
from .terms import Poly, P, A


class Unsupported(Exception):
    """The analysed source uses a construct the domain does not model."""


class Pruned(Exception):
    pass


DEBUG = False
FLOATS = set()            # ids of real-valued atoms


def is_int(p):
    for k, v in p.m.items():
        if v.denominator != 1:
            return False
        for a, e in k:
            if e < 0 or a in FLOATS:
                return False
            kk = t.key(a)
            if kk[0] in ("inv", "fn", "rd", "val"):
                return False
    return True


class S:
    """Symbolic Python number: kind 'i' (int) or 'f' (float)."""
    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p = p
        self.k = k

    def __repr__(self):
        return "S(%s)" % t.show(self.p)

    def __eq__(self, o):
        raise Unsupported("native comparison of a symbolic number")

    def __hash__(self):
        return hash((self.p, self.k))


class B:
    """Symbolic boolean."""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "B(%s)" % t.bshow(self.b)


def mk(p, k):
    c = p.const()
    if c is not None:
        if k == "i":
            if c.denominator != 1:
                raise Unsupported("fractional integer")
            return int(c)
        return c if isinstance(c, Fraction) else Fraction(c)
    return S(p, k)


def mkb(b):
    if b == t.T:
        return True
    if b == t.F:
        return False
    return B(b)


def isnum(x):
    return isinstance(x, (int, Fraction, S, float)) or isinstance(x, B)


def pk(x):
    """(Poly, kind) of a Python number."""
    if isinstance(x, S):
        return x.p, x.k
    if isinstance(x, bool):
        return P(int(x)), "i"
    if isinstance(x, int):
        return P(x), "i"
    if isinstance(x, Fraction):
        return P(x), "f"
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return A("fconst", repr(x)), "f"
        return P(Fraction(repr(x))), "f"
    if isinstance(x, B):
        return t.b_val(x.b), "i"
    raise Unsupported("not a number: %r" % (x,))


def real(name, positive=True):
    p = A("py", name)
    FLOATS.add(p.single())
    return S(p, "f")


def integer(name):
    return S(A("py", name), "i")


_FD = {}


def fdiv(a, b):
    """Floor division of integer polynomials."""
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return P(int(ca) // int(cb))
    if cb == 1:
        return a
    # exact division by a single monomial, remainder kept
    if len(b.m) == 1:
        (kb, vb), = b.m.items()
        q, r = {}, {}
        for k, v in a.m.items():
            d = dict(k)
            ok = True
            for x, e in kb:
                if d.get(x, 0) < e:
                    ok = False
                    break
                d[x] -= e
                if not d[x]:
                    del d[x]
            if ok and (v / vb).denominator == 1:
                q[tuple(sorted(d.items()))] = v / vb
            else:
                r[k] = v
        if not r:
            return Poly(q)
        if q:
            return Poly(q) + fdiv(Poly(r), b)
    q = exact(a, b)
    if q is not None:
        return q
    if cb is not None and cb > 0 and cb.denominator == 1 and a.m[max(a.m, key=lambda k: (sum(e for _, e in k), k))] < 0 \
            and all(c.denominator == 1 for c in a.m.values()):
        return -fdiv(cb - 1 - a, b)          # floor(-x/m) = -floor((x+m-1)/m)
    return A("fdiv", a, b)


def exact(a, b):
    """a / b when it is a polynomial with integer coefficients."""
    if len(b.m) < 2:
        return None
    lead = max(b.m, key=lambda k: (sum(e for _, e in k), k))
    q = P(0)
    for _ in range(20):
        if not a.m:
            return q
        for k, v in a.m.items():
            d = dict(k)
            if all(d.get(x, 0) >= e for x, e in lead) and (v / b.m[lead]).denominator == 1:
                for x, e in lead:
                    d[x] -= e
                    if not d[x]:
                        del d[x]
                m = Poly({tuple(sorted(d.items())): v / b.m[lead]})
                break
        else:
            return None
        q = q + m
        a = a - m * b
    return None


def fmod(a, b):
    if b.const() == 2:
        return t.imod(a, b)
    return a - b * fdiv(a, b)


class Path:
    def __init__(self, prefix=(), setup=None):
        self.prefix = list(prefix)
        self.taken = []
        self.facts = []          # Poly >= 0
        self.strict = []         # Poly > 0 (reals)
        self.lits = {}
        self.bounds = {}
        self.log = []
        self.trace = []          # (condition text, value)
        self._memo = {}
        self.hints = []          # premises: functions of a formula
        self.inputs = {}         # input name -> (lo, hi(idx) or None, positive)
        self._touched = set()
        if setup:
            setup(self)

    def clone(self):
        """The facts known so far, without any decision made later."""
        q = Path()
        q.facts, q.strict, q.lits = list(self.facts), list(self.strict), dict(self.lits)
        q.bounds, q.hints, q.inputs = dict(self.bounds), list(self.hints), dict(self.inputs)
        q._touched = set(self._touched)
        if getattr(self, "_pos", None):
            q._pos = set(self._pos)
        return q

    # -- facts ----------------------------------------------------------
    def nonneg_atom(self, x, lo=0):
        a = x.p.single()
        self.bounds[a] = (Fraction(lo), None)

    def assume_ge(self, x, y=0):
        p = pk(x)[0] - pk(y)[0]
        self._memo.clear()
        self.facts.append(p)

    def assume(self, b, val=True):
        self._memo.clear()
        if not val:
            b = t.b_not(b)
        self._assume(b)

    def _assume(self, b):
        if b[0] == "and":
            for x in b[1]:
                self._assume(x)
            return
        self.lits[b] = True
        self.lits[t.b_not(b)] = False
        pos, lit = True, b
        if b[0] == "not":
            pos, lit = False, b[1]
        if lit[0] in ("lt", "eq"):
            w = self.whole(lit[1])
            if w is not lit[1]:
                if lit[0] == "lt":
                    self.facts.append(-lit[1] if pos else lit[1])
                lit = t.b_lt0(w, is_int(w)) if lit[0] == "lt" else t.b_eq0(w)
                if lit[0] not in ("lt", "eq"):
                    self._assume(lit if pos else t.b_not(lit))
                    return
                self.lits[lit] = pos
        if lit[0] == "lt":
            p = lit[1]
            if is_int(p):
                self.facts.append(-p - 1 if pos else p)
            elif pos:
                self.facts.append(-p)
                self.strict.append(-p)
            else:
                self.facts.append(p)
        elif lit[0] == "eq":
            p = lit[1]
            if pos:
                self.facts.append(p)
                self.facts.append(-p)
            elif is_int(p):
                if self.nonneg(p):
                    self.facts.append(p - 1)
                elif self.nonneg(-p):
                    self.facts.append(-p - 1)
            else:
                if self.nonneg(p):
                    self.strict.append(p)
                elif self.nonneg(-p):
                    self.strict.append(-p)

    def inherit(self, p, body):
        """p is one of the values of body: bounds and facts carry over."""
        a = p.single()
        if a is None or a in self.bounds or body.const() is not None:
            return
        lo, hi = self.lower(body), self.upper(body)
        self.bounds[a] = (lo, hi)
        if self.pos(body):
            self.positive(S(p, "f"))
            self.bounds[a] = (lo, hi)
        b = body.single()
        if b is None:
            return
        self.touch(body)
        for f in list(self.facts):
            li = f.lin(b) if b in f.atoms() else None
            if li is not None and li[0].const() is not None and b not in li[1].atoms():
                self.facts.append(li[1] + li[0] * p)
        self._memo.clear()

    def under(self, cond, p):
        """p with its gates decided by cond."""
        for a in p.atoms():
            k = t.key(a)
            if k[0] == "ite":
                li = p.lin(a)
                if li is None:
                    continue
                v = True if _implies(cond, k[1]) else False if _implies(cond, t.b_not(k[1])) else None
                if v is not None:
                    return self.under(cond, li[1] + li[0] * (k[2] if v else k[3]))
        return p

    # -- bounds ---------------------------------------------------------
    def abnd(self, a):
        b = self.bounds.get(a)
        if b is not None:
            return b
        k = t.key(a)
        if k[0] == "in":
            r = self.inputs.get(k[1])
            return (None if r is None or r[0] is None else Fraction(r[0]), None)
        if k[0] == "mod":
            c = k[2].const()
            return (Fraction(0), c - 1 if c is not None else None)
        if k[0] == "max":
            l1, l2 = self.lower(k[1]), self.lower(k[2])
            u1, u2 = self.upper(k[1]), self.upper(k[2])
            lo = l1 if l2 is None else l2 if l1 is None else max(l1, l2)
            hi = None if u1 is None or u2 is None else max(u1, u2)
            return (lo, hi)
        if k[0] == "ite":
            l1, l2 = self.lower(k[2]), self.lower(k[3])
            u1, u2 = self.upper(k[2]), self.upper(k[3])
            return (None if l1 is None or l2 is None else min(l1, l2),
                    None if u1 is None or u2 is None else max(u1, u2))
        if k[0] == "bool":
            return (Fraction(0), Fraction(1))
        if k[0] == "fdiv":
            l1, l2 = self.lower(k[1]), self.lower(k[2])
            if l1 is not None and l2 is not None and l1 >= 0 and l2 > 0:
                return (Fraction(0), None)
        if k[0] == "trunc":
            l, u = self.lower(k[1]), self.upper(k[1])
            return (Fraction(math.floor(l)) if l is not None and l >= 0 else None,
                    Fraction(math.floor(u)) if u is not None and u >= 0 else None)
        if k[0] in ("abs", "sqrt") or (k[0] == "fn" and k[1] in ("abs", "sqrt", "exp")) or self.ispos(a):
            return (Fraction(0), None)
        return (None, None)

    def touch(self, p):
        """Facts that come with the input elements of p."""
        for a in p.atoms():
            k = t.key(a)
            if k[0] == "in" and a not in self._touched:
                self._touched.add(a)
                r = self.inputs.get(k[1])
                if r and r[1]:
                    h = r[1](k[2:])
                    if h is not None:
                        self.facts.append(h - A(*k))
                if r and len(r) > 3:
                    h = r[3](k[2:])
                    if h is not None:
                        self.facts.append(A(*k) - h)
            elif k[0] == "trunc" and a not in self._touched:
                self._touched.add(a)
                if (self.lower(k[1]) or -1) >= 0 or self.lower(k[1]) == 0:
                    self.facts.append(k[1] - A(*k))        # int(x) <= x
                    for f in k[1].atoms():                 # int(f*n) <= n for a fraction f
                        if self.abnd(f) == (0, 1) and k[1].lin(f) is not None:
                            co, rest = k[1].lin(f)
                            if self.nonneg(co, 2):
                                self.facts.append(rest + co - A(*k))

    def ispos(self, a):
        if a in self.posatoms():
            return True
        k = t.key(a)
        if k[0] == "in":
            r = self.inputs.get(k[1])
            return bool(r and r[2])
        if k[0] == "max":
            return self.pos(k[1]) or self.pos(k[2])
        if k[0] in ("inv", "fdivf"):
            return self.pos(k[1])
        if k[0] == "fn" and k[1] == "exp" or k[0] == "finfo_max":
            return True
        if k[0] == "fn" and k[1] in ("sqrt", "pow"):
            return self.pos(k[2])
        return False

    def mono(self, k):
        lo, hi = Fraction(1), Fraction(1)
        for a, e in k:
            l, h = self.abnd(a)
            if e < 0:
                if l is None or l < 0:
                    return (None, None)
                l, h = Fraction(0), None
                e = -e
            if e % 2 == 0 and (l is None or l < 0):
                l, h = Fraction(0), None
                e = 1
            for _ in range(e):
                if lo is not None and lo >= 0 and l is not None and l >= 0:
                    lo = lo * l
                    hi = hi * h if hi is not None and h is not None else None
                elif lo == 1 and hi == 1:
                    lo, hi = l, h
                else:
                    return (None, None)
        return (lo, hi)

    def lower(self, p):
        s = Fraction(0)
        for k, c in p.m.items():
            if not k:
                s += c
                continue
            lo, hi = self.mono(k)
            b = lo if c > 0 else hi
            if b is None:
                return None
            s += c * b
        return s

    def upper(self, p):
        b = self.lower(-p)
        return None if b is None else -b

    def nonneg(self, p, depth=4):
        key = (p, depth)
        r = self._memo.get(key)
        if r is None:
            self._memo[key] = False
            w = self.whole(p)
            r = self._nonneg(w, depth) or (w is not p and self._nonneg(p, min(depth, 2)))
            if not r and depth >= 4 and any(t.key(a)[0] == "fdiv" and k[2].const() for a in p.atoms()
                                            for k in (t.key(a),)) and all(
                    c.denominator == 1 for c in p.m.values()) and is_int(p):
                r = self._nonneg(w + P(Fraction(3, 4)), depth)      # an integer above -1 is at least 0
            self._memo[key] = r
        return r

    def _nonneg(self, p, depth):
        lb = self.lower(p)
        if lb is not None and lb >= 0:
            return True
        self.touch(p)
        for a in p.atoms():
            k = t.key(a)
            if k[0] in ("max", "ite", "fdiv"):
                li = p.lin(a)
                if li is None:
                    continue
                co, rest = li
                c = co.const()
                if c is None:
                    continue
                if k[0] == "max":
                    q1, q2 = rest + co * k[1], rest + co * k[2]
                    if c > 0:
                        if self.nonneg(q1, depth) or self.nonneg(q2, depth):
                            return True
                    elif self.nonneg(q1, depth) and self.nonneg(q2, depth):
                        return True
                elif k[0] == "fdiv":
                    q = A("fdiv", k[1], k[2])
                    # b*q <= a  and  a <= b*q + b - 1
                    f1 = k[1] - k[2] * q
                    f2 = k[2] * q + k[2] - 1 - k[1]
                    for f in (f1, f2):
                        if f not in self.facts and (self.lower(k[2]) or 0) > 0:
                            self.facts.append(f)
                    continue
                else:
                    ok = True
                    for val, br in ((True, k[2]), (False, k[3])):
                        n = len(self.facts), len(self.strict)
                        sl = dict(self.lits)
                        sm = self._memo
                        st = set(self._touched)
                        self._memo = {}
                        self._assume(k[1] if val else t.b_not(k[1]))
                        ok = self.nonneg(rest + co * br, depth - 1)
                        del self.facts[n[0]:]
                        del self.strict[n[1]:]
                        self.lits = sl
                        self._memo = sm
                        self._touched = st
                        if not ok:
                            break
                    if ok:
                        return True
        if depth > 0:
            # a monomial without a bound has to be cancelled by some fact
            best = None
            for k, c in p.m.items():
                if not k:
                    continue
                lo, hi = self.mono(k)
                if (lo if c > 0 else hi) is not None:
                    continue
                fs = []
                for f in self.facts:
                    d = f.m.get(k)
                    if d is not None and c * d > 0:
                        fs.append((f, c / d))
                if best is None or len(fs) < len(best):
                    best = fs
                    if not fs:
                        return False
            if best is None:
                best = []
                for f in self.facts:
                    for k, d in f.m.items():
                        c = p.m.get(k) if k else None
                        if c is not None and c * d > 0:
                            best.append((f, c / d))
                            break
            for f, r in best:
                if self.nonneg(p - f * P(r), depth - 1):
                    return True
        return False

    def pos(self, p):
        """p > 0 for a real-valued polynomial."""
        p = self.whole(p)
        if is_int(p):
            return self.nonneg(p - 1)
        ok = bool(p.m)
        for k, c in p.m.items():
            if c < 0:
                ok = False
                break
            for a, e in k:
                b = self.abnd(a)
                if self.ispos(a):
                    continue
                if b[0] is None or b[0] <= 0:
                    ok = False
        if ok:
            return True
        for a in p.atoms():
            k = t.key(a)
            if k[0] == "max" and p.lin(a) is not None:
                c, rest = p.lin(a)
                c = c.const()
                if c is None:
                    continue
                two = (self.pos(rest + c * x) for x in k[1:])
                if any(two) if c > 0 else all(two):
                    return True
        for f in self.strict:
            if self.nonneg(p - f):
                return True
            d = (p * t.inv(f)).const() if len(f.m) == 1 else None
            if d is not None and d > 0:
                return True
        return False

    def posatoms(self):
        return getattr(self, "_pos", ())

    def positive(self, *xs):
        s = getattr(self, "_pos", None)
        if s is None:
            s = self._pos = set()
        for x in xs:
            a = x.p.single()
            s.add(a)
            self.bounds.setdefault(a, (Fraction(0), None))

    def tiny(self, p):
        """Comparison with a threshold below every nonzero value."""
        small = {k: v for k, v in p.m.items() if any(_finfo(a) for a, _ in k)}
        if not small:
            return None
        rest = t.Poly({k: v for k, v in p.m.items() if k not in small})
        if not rest.m:
            s = t.Poly(small)
            return False if self.nonneg(s) else True if self.pos(-s) else None
        if self.pos(rest):
            return False
        if self.pos(-rest):
            return True
        return None

    # -- decisions ------------------------------------------------------
    def whole(self, p):
        """p times positive quantities, without negative powers."""
        low = {}
        for k in p.m:
            for a, e in k:
                if e < low.get(a, 0):
                    low[a] = e
        if not low or any(_finfo(a) for a in low) or not all(self.ispos(a) or (self.abnd(a)[0] or 0) > 0 for a in low):
            return p
        return p * t.Poly({tuple(sorted((a, -e) for a, e in low.items())): Fraction(1)})

    def prove(self, b):
        if b == t.T:
            return True
        if b == t.F:
            return False
        if b[0] in ("lt", "eq"):
            w = self.whole(b[1])
            if w is not b[1]:
                b = t.b_lt0(w, is_int(w)) if b[0] == "lt" else t.b_eq0(w)
                if b[0] not in ("lt", "eq"):
                    return self.prove(b)
        v = self.lits.get(b)
        if v is not None:
            return v
        if b[0] == "lt":
            v = self.tiny(b[1])
            if v is not None:
                return v
        for h in self.hints:
            v = h(b)
            if v is not None:
                return v
        if b[0] == "not":
            v = self.prove(b[1])
            return None if v is None else not v
        if b[0] in ("and", "or"):
            stop = b[0] == "or"
            unk = False
            for x in b[1]:
                v = self.prove(x)
                if v is None:
                    unk = True
                elif v == stop:
                    return stop
            return None if unk else not stop
        if b[0] == "lt":
            p = b[1]
            if is_int(p):
                if self.nonneg(p):
                    return False
                if self.nonneg(-p - 1):
                    return True
            else:
                if self.nonneg(p):
                    return False
                if self.pos(-p):
                    return True
            return None
        if b[0] == "eq":
            p = b[1]
            if is_int(p):
                if self.nonneg(p - 1) or self.nonneg(-p - 1):
                    return False
            elif self.pos(p) or self.pos(-p):
                return False
            if self.nonneg(p) and self.nonneg(-p):
                return True
            return None
        return None

    def decide(self, b, what=None):
        v = self.prove(b)
        if v is not None:
            q = b if b[0] != "not" else b[1]
            q = q[1] if len(q) > 1 else None
            if isinstance(q, t.Poly) and len(q.m) == 1 and q.const() is None and b not in self.lits:
                a = q.single() or (-q).single()
                if a is not None and t.key(a)[0] in ("trunc", "fdiv"):
                    self.assume(b, v)              # a lemma worth keeping
            return v
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append(v)
        self.trace.append((what or t.bshow(b), v))
        self.assume(b, v)
        if self.contradictory(b, v):
            raise Pruned()
        return v

    def contradictory(self, b, v):
        return False

    def simp(self, c, x, y):
        """Gated value under the facts; x and y are thunks."""
        v = self.prove(c)
        if v is True:
            return x()
        if v is False:
            return y()
        return t.ite(c, x(), y())


def _implies(c, b):
    return c == b or (c[0] == "and" and any(_implies(x, b) for x in c[1]))


class Restart(Exception):
    pass


def explore(run, setup=None, limit=400):
    """All paths of run(path): list of (path, kind, value)."""
    for _ in range(50):
        try:
            return _explore(run, setup, limit)
        except Restart:
            pass
    raise Unsupported("loop analysis did not settle")


def _explore(run, setup=None, limit=400):
    """All paths of run(path): list of (path, kind, value)."""
    out = []
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        n += 1
        if n > limit:
            if DEBUG:
                return out
            raise Unsupported("more than %d paths" % limit)
        path = Path(pre, setup)
        try:
            kind, val = run(path)
        except Pruned:
            kind, val = None, None
        for i in range(len(path.taken) - 1, len(pre) - 1, -1):
            stack.append(path.taken[:i] + [not path.taken[i]])
        if kind is not None:
            out.append((path, kind, val))
    return out


def _finfo(a):
    k = t.key(a)
    return k[0] == "finfo_max" or any(isinstance(x, t.Poly) and any(_finfo(b) for b in x.atoms()) for x in k[1:])
