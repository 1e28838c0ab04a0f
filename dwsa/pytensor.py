"""Abstract tensors for the Python abstract interpreter.

A tensor is a view (chain of index maps) of a storage; a storage maps an index
to a value number (terms.Poly) or, for boolean tensors, to a formula.  Reads
compose the maps, writes invert them, so aliasing through views is exact.
"""
import ast
import re
from fractions import Fraction

from . import terms as t
from .pyfacts import S, B, Unsupported, mk, mkb, pk, isnum, fdiv, fmod, FLOATS, is_int
from .pyint import (Native, Opq, Type, Obj, Lazy, EnumVal, exc, cmp_formula, PyRaise, ExcCls)
from .terms import A, P

_ids = [0]


def nid():
    _ids[0] += 1
    return _ids[0]


class DType:
    def __init__(self, name, kind, size):
        self.name, self.kind, self.size = name, kind, size

    def __repr__(self):
        return "torch." + self.name

    def py_getattr(self, it, n):
        if n == "is_floating_point":
            return self.kind == "f"
        if n == "is_complex":
            return self.kind == "c"
        if n == "itemsize":
            return self.size
        raise exc("AttributeError", n)


F32 = DType("float32", "f", 4)
F64 = DType("float64", "f", 8)
F16 = DType("float16", "f", 2)
I64 = DType("int64", "i", 8)
I32 = DType("int32", "i", 4)
BOOL = DType("bool", "b", 1)
C64 = DType("complex64", "c", 8)
C128 = DType("complex128", "c", 16)
DTYPES = {"float32": F32, "float": F32, "float64": F64, "double": F64, "float16": F16, "half": F16, "long": I64,
          "int64": I64, "int32": I32, "int": I32, "bool": BOOL, "complex64": C64, "complex128": C128}


class Device:
    def __init__(self, type_, index=None):
        self.type, self.index = type_, index

    def __repr__(self):
        return self.type if self.index is None else "%s:%s" % (self.type, self.index)

    def __eq__(self, o):
        return isinstance(o, Device) and repr(o) == repr(self)

    def __hash__(self):
        return hash(repr(self))

    def py_getattr(self, it, n):
        if n == "type":
            return self.type
        if n == "index":
            return self.index
        raise exc("AttributeError", n)


CPU = Device("cpu")
CUDA = Device("cuda", 0)


class St:
    """Storage."""

    def __init__(self, fn, shape, dtype, device, label):
        self.fn = fn
        self.shape = tuple(shape)
        self.dtype = dtype
        self.device = device
        self.label = label
        self.id = nid()
        self.writes = 0
        self.aliases = []           # copies made only if a view was not contiguous
        self.pinned = False


class Sel:
    """Basic indexing: per parent dimension a fixed index or a strided slice."""

    def __init__(self, spec, none, pshape):
        self.spec, self.none, self.pshape = spec, none, pshape

    def fwd(self, idx):
        return tuple(s[1] if s[0] == "fix" else s[2] + s[3] * idx[s[1]] for s in self.spec)

    def inv(self, p, vshape):
        cs = []
        idx = [P(0)] * len(vshape)
        for s, x in zip(self.spec, p):
            if s[0] == "fix":
                cs.append(t.b_eq0(x - s[1]))
            else:
                _, o, st, step, full = s
                if step != P(1):
                    raise Unsupported("write through a strided view")
                idx[o] = x - st
                if not full:
                    n = pk(vshape[o])[0]
                    cs.append(t.b_not(t.b_lt0(x - st)))
                    cs.append(t.b_lt0(x - st - n))
        return t.b_and(*cs), tuple(idx)


class Perm:
    def __init__(self, order):
        self.order = order          # view dim i shows parent dim order[i]

    def fwd(self, idx):
        r = [None] * len(idx)
        for i, o in enumerate(self.order):
            r[o] = idx[i]
        return tuple(r)

    def inv(self, p, vshape):
        return t.T, tuple(p[o] for o in self.order)


class Expand:
    def __init__(self, lead, pshape, vshape):
        self.lead, self.pshape, self.vshape = lead, pshape, vshape

    def fwd(self, idx):
        idx = idx[self.lead:]
        return tuple(P(0) if one else i for i, one in zip(idx, self.pshape))

    def inv(self, p, vshape):
        raise Unsupported("write through an expanded tensor")


class Reshape:
    """Reshape described as groups of (parent dims, view dims) of equal size."""

    def __init__(self, groups):
        self.groups = groups

    @staticmethod
    def _split(flat, dims):
        out = []
        for d in reversed(dims[1:]):
            n = pk(d)[0]
            out.append(fmod(flat, n))
            flat = fdiv(flat, n)
        out.append(flat)
        return out[::-1]

    @staticmethod
    def _flat(idx, dims):
        f = P(0)
        for x, d in zip(idx, dims):
            f = f * pk(d)[0] + x
        return f

    def _map(self, idx, a, b):
        """idx over side a -> over side b."""
        out = {}
        for g in self.groups:
            ia, da, ib, db = g[a], g[a + "d"], g[b], g[b + "d"]
            if len(ia) == len(ib) == 1:
                out[ib[0]] = idx[ia[0]]
                continue
            f = self._flat([idx[i] for i in ia], da)
            for i, v in zip(ib, self._split(f, db)):
                out[i] = v
        return tuple(out[i] for i in sorted(out))

    def fwd(self, idx):
        return self._map(idx, "v", "p")

    def inv(self, p, vshape):
        return t.T, self._map(p, "p", "v")


class T:
    """Tensor."""

    def __init__(self, st, shape, dtype=None, parent=None, op=None, rg=False, contig=True, gin=frozenset()):
        self.st = st
        self.shape = tuple(_dim(x) for x in shape)
        self.dtype = dtype or st.dtype
        self.parent = parent
        self.op = op
        self.rg = rg
        self.contig = contig
        self.gin = gin
        self.name = None
        self.msel = None
        self.param = False
        self.inplaced = False
        self.id = nid()

    def __repr__(self):
        return "T(%s%s)" % (self.name or self.st.label, list(self.shape))

    @property
    def kind(self):
        return self.dtype.kind

    @property
    def device(self):
        return self.st.device

    def root(self):
        r = self
        while r.parent is not None:
            r = r.parent
        return r


def _dim(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Fraction):
        raise exc("TypeError", "sizes must be integers")
    return x


class Size(tuple):
    """torch.Size"""


def reader(x):
    """Content of the tensor now, as a function of its index."""
    if x.parent is None:
        return x.st.fn
    f = reader(x.parent)
    op = x.op
    return lambda idx: f(op.fwd(idx))


def val(x, *idx):
    return reader(x)(tuple(pk(i)[0] if not isinstance(i, t.Poly) else i for i in idx))


def write(it, x, cond, value, node=None):
    """x[idx] = value(idx) where cond(idx)."""
    it.mut += 1
    if x.parent is None:
        old = x.st.fn
        x.st.writes += 1
        it.events.append(("write", x.st, x, it.where(node) if node is not None else it.where(it.node)))
        path = it.path
        if x.kind == "b":
            x.st.fn = lambda idx: _bsel(path, cond(idx), lambda: value(idx), lambda: old(idx))
        else:
            x.st.fn = lambda idx: path.simp(cond(idx), lambda: value(idx), lambda: old(idx))
        return
    op, vs = x.op, x.shape

    def pc(p):
        c, i = op.inv(p, vs)
        if it.path.prove(c) is False:
            return t.F
        return t.b_and(c, cond(i))

    def pv(p):
        return value(op.inv(p, vs)[1])
    write(it, x.parent, pc, pv, node)


def _bsel(path, c, x, y):
    v = path.prove(c)
    if v is True:
        return x()
    if v is False:
        return y()
    return t.b_or(t.b_and(c, x()), t.b_and(t.b_not(c), y()))


def always(idx):
    return t.T


def new(it, fn, shape, dtype, device, label="tmp", rg=False, gin=frozenset()):
    st = St(fn, shape, dtype, device, label)
    return T(st, shape, dtype, rg=rg, gin=gin)


def flow(it, *xs):
    """(requires_grad, leaves) of a result computed from xs."""
    if not it.grad:
        return False, frozenset()
    rg, g = False, frozenset()
    for x in xs:
        if isinstance(x, T) and x.rg:
            rg = True
            g |= x.gin
    return rg, g


def ix(n):
    return tuple(A("ix", i) for i in range(n))


def ckey(x, n=None):
    """Canonical key of a tensor's content."""
    return reader(x)(ix(len(x.shape)))


def as_poly(v, kind):
    if kind == "b":
        return t.b_val(v)
    return v


def real_atom(*k):
    p = A(*k)
    FLOATS.add(p.single())
    return p


def promote(a, b):
    if not isinstance(a, T):
        a, b = b, a
    da = a.dtype
    if isinstance(b, T):
        db = b.dtype
        order = "bifc"
        ka, kb = order.index(da.kind), order.index(db.kind)
        if ka == kb:
            if not a.shape and b.shape:
                return db
            if not b.shape and a.shape:
                return da
            return da if da.size >= db.size else db
        return da if ka > kb else db
    k = "b" if isinstance(b, (bool, B)) else pk(b)[1]
    if k == "c" and da.kind != "c":
        return C64
    if k == "f" and da.kind in "bi":
        return F32
    if k == "i" and da.kind == "b":
        return I64
    return da


def dim_eq(it, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    pa, pb = pk(a)[0], pk(b)[0]
    if pa == pb:
        return True
    return it.path.prove(t.b_eq0(pa - pb))


def broadcast(it, sa, sb):
    n = max(len(sa), len(sb))
    out = []
    for i in range(n):
        x = sa[len(sa) - n + i] if len(sa) - n + i >= 0 else 1
        y = sb[len(sb) - n + i] if len(sb) - n + i >= 0 else 1
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            e = dim_eq(it, x, y)
            if e is None:
                # one of them may be 1
                if it.path.decide(t.b_eq0(pk(x)[0] - pk(y)[0]), "broadcast"):
                    out.append(x)
                elif it.path.decide(t.b_eq0(pk(x)[0] - 1), "broadcast"):
                    out.append(y)
                elif it.path.decide(t.b_eq0(pk(y)[0] - 1), "broadcast"):
                    out.append(x)
                else:
                    raise exc("RuntimeError", "size mismatch %s %s" % (x, y))
            elif e:
                out.append(x)
            else:
                if it.path.prove(t.b_eq0(pk(x)[0] - 1)):
                    out.append(y)
                elif it.path.prove(t.b_eq0(pk(y)[0] - 1)):
                    out.append(x)
                else:
                    raise exc("RuntimeError", "size mismatch: %s vs %s" % (sa, sb))
    return tuple(out)


def bidx(it, x, n):
    """Index adaptor of operand x for a result of n dimensions."""
    sh = x.shape
    k = len(sh)
    path = it.path

    def f(idx):
        idx = idx[n - k:]
        return tuple(P(0) if _is1(path, d) else i for i, d in zip(idx, sh))
    return f


def _is1(path, d):
    if isinstance(d, int):
        return d == 1
    return False


def elementwise(it, f, args, dtype, label="tmp", shape=None, outk=None):
    """New tensor f(values) with broadcasting; f over Polys (formulas for bool)."""
    ts = [a for a in args if isinstance(a, T)]
    if shape is None:
        shape = ()
        for a in ts:
            shape = broadcast(it, shape, a.shape)
    n = len(shape)
    rd = []
    for a in args:
        if isinstance(a, T):
            r, b = reader(a), bidx(it, a, n)
            rd.append(lambda idx, r=r, b=b: r(b(idx)))
        else:
            v = a.b if isinstance(a, B) else a
            if not isinstance(v, tuple):
                v = pk(a)[0]
            rd.append(lambda idx, v=v: v)
    rg, gin = flow(it, *args)
    if dtype.kind in "bi":
        rg, gin = False, frozenset()
    out = new(it, lambda idx: f(*[r(idx) for r in rd]), shape, dtype, ts[0].device, label, rg, gin)
    return out


def numf(a):
    """Convert bool operand values to numbers."""
    return (lambda v: t.b_val(v)) if isinstance(a, T) and a.kind == "b" else (lambda v: v)


def check_dev(it, a, b):
    if isinstance(a, T) and isinstance(b, T) and a.device != b.device and a.shape and b.shape:
        raise exc("RuntimeError", "tensors on different devices")


def _lift_(a):
    if isinstance(a, T):
        return a
    if isnum(a):
        return a
    raise exc("TypeError", "unsupported operand %r" % (a,))


def binary(it, op, a, b):
    a, b = _lift_(a), _lift_(b)
    check_dev(it, a, b)
    dt = promote(a, b)
    ca, cb = numf(a), numf(b)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        if dt.kind == "b":
            g = t.b_and if isinstance(op, ast.BitAnd) else t.b_or
            if isinstance(op, ast.BitXor):
                g = lambda x, y: t.b_or(t.b_and(x, t.b_not(y)), t.b_and(t.b_not(x), y))
            return elementwise(it, g, [a, b], BOOL)
        raise Unsupported("bitwise operation on numbers")
    if isinstance(op, ast.Add):
        f = lambda x, y: ca(x) + cb(y)
    elif isinstance(op, ast.Sub):
        f = lambda x, y: ca(x) - cb(y)
    elif isinstance(op, ast.Mult):
        f = lambda x, y: unsqrt(ca(x) * cb(y))
    elif isinstance(op, ast.Div):
        f = lambda x, y: ca(x) * t.inv(cb(y))
        if dt.kind in "bi":
            dt = F32
    elif isinstance(op, ast.FloorDiv):
        f = (lambda x, y: fdiv(ca(x), cb(y))) if dt.kind in "bi" else \
            (lambda x, y: real_atom("fn", "floordiv", ca(x), cb(y)))
    elif isinstance(op, ast.Mod):
        f = (lambda x, y: fmod(ca(x), cb(y))) if dt.kind in "bi" else \
            (lambda x, y: real_atom("fn", "mod", ca(x), cb(y)))
    elif isinstance(op, ast.Pow):
        f = lambda x, y: power(ca(x), cb(y))
    else:
        raise Unsupported("tensor operator %s" % type(op).__name__)
    return elementwise(it, f, [a, b], dt)


def unsqrt(p):
    """sqrt(x)^2 = x."""
    from .pyeq import unsqrt as f
    return f(p)


def power(x, y):
    c = y.const()
    if c is not None and c.denominator == 1 and abs(c) <= 8:
        r = P(1)
        for _ in range(abs(int(c))):
            r = r * x
        r = unsqrt(r)
        return t.inv(r) if c < 0 else r
    if c is not None and c == Fraction(1, 2):
        return real_atom("fn", "sqrt", x)
    return real_atom("fn", "pow", x, y)


def unary(it, op, a):
    if isinstance(op, ast.USub):
        if a.kind == "b":
            raise exc("RuntimeError", "negation of bool tensor")
        return elementwise(it, lambda x: -x, [a], a.dtype)
    if isinstance(op, ast.Invert):
        if a.kind == "b":
            return elementwise(it, lambda x: t.b_not(x), [a], BOOL)
        return elementwise(it, lambda x: -x - 1, [a], a.dtype)
    if isinstance(op, ast.UAdd):
        return a
    if isinstance(op, ast.Not):
        return not truth(it, a)
    raise Unsupported("tensor unary operator")


def compare(it, op, a, b):
    for x in (a, b):
        if not isinstance(x, T) and not isnum(x):
            if isinstance(op, ast.Eq):
                return False
            if isinstance(op, ast.NotEq):
                return True
            raise exc("TypeError", "comparison")
    ca, cb = numf(a), numf(b)
    integer = all((x.kind in "bi") if isinstance(x, T) else pk(x)[1] == "i" for x in (a, b))
    path = it.path
    return elementwise(it, lambda x, y: lift(path, cmp_formula, op, ca(x), cb(y), integer), [a, b], BOOL)


def lift(path, cmp, op, x, y, integer):
    """Comparison with the gates of its operands pulled out when that decides it."""
    f = cmp(op, x, y, integer)
    if not integer or f in (t.T, t.F):
        return f
    v = path.prove(f)
    if v is not None:
        return t.T if v else t.F
    g = _lift(path, cmp, op, x - y, 5)
    return f if g is None else g


def _lift(path, cmp, op, d, n):
    f = cmp(op, d, P(0), True)
    v = path.prove(f)
    if v is not None:
        return t.T if v else t.F
    if not n:
        return None
    for a in d.atoms():
        k = t.key(a)
        if k[0] == "ite":
            li = d.lin(a)
            if li is None:
                continue
            co, rest = li
            x = _lift(path, cmp, op, rest + co * k[2], n - 1)
            y = _lift(path, cmp, op, rest + co * k[3], n - 1)
            if x is None and y is None:
                return None
            if x is None:
                x = cmp(op, rest + co * k[2], P(0), True)
            if y is None:
                y = cmp(op, rest + co * k[3], P(0), True)
            return t.b_or(t.b_and(k[1], x), t.b_and(t.b_not(k[1]), y))
    return None


def truth(it, a):
    if numel_p(a).const() is None or numel_p(a).const() != 1:
        if a.shape and not (numel_p(a).const() == 1):
            raise exc("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous")
    v = reader(a)(tuple(P(0) for _ in a.shape))
    f = v if a.kind == "b" else t.b_not(t.b_eq0(v))
    return it.path.decide(f)


def numel_p(a):
    p = P(1)
    for d in a.shape:
        p = p * pk(d)[0]
    return p


def item(it, a):
    n = numel_p(a).const()
    if n is not None and n != 1:
        raise exc("RuntimeError", "a Tensor with %s elements cannot be converted to Scalar" % n)
    v = reader(a)(tuple(P(0) for _ in a.shape))
    if a.kind == "b":
        return mkb(v)
    if a.kind == "f":
        s = v.single()
        if s is not None:
            FLOATS.add(s)
    if a.kind == "i":
        return mk(v, "i") if is_int(v) or True else v
    return mk(v, a.kind)


def iterate(it, a):
    if not a.shape:
        raise exc("TypeError", "iteration over a 0-d tensor")
    n = a.shape[0]
    if isinstance(n, S):
        raise Unsupported("iteration over a tensor of unknown length")
    return iter([getitem(it, a, i) for i in range(n)])


def view(x, shape, op, contig=False, dtype=None):
    v = T(x.st, shape, dtype or x.dtype, x, op, x.rg, contig, x.gin)
    return v


# ------------------------------------------------------------------ indexing
def norm_slice(it, s, n):
    """(start, length) Polys of a slice of a dimension of size n."""
    path = it.path
    N = pk(n)[0]
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        if not (isinstance(s.step, int) and s.step > 0):
            raise Unsupported("slice step")

    def pos(x, default):
        if x is None:
            return default
        p = pk(x)[0]
        if path.nonneg(p):
            neg = False
        elif path.nonneg(-p - 1):
            neg = True
        else:
            neg = path.decide(t.b_lt0(p), "slice bound")
        if neg:
            p = p + N
            if not path.nonneg(p):
                p = P(0) if path.nonneg(-p) else t.mmax(p, P(0))
        if path.nonneg(N - p):
            return p
        if path.nonneg(p - N):
            return N
        return t.mmin(p, N)
    b, e = pos(s.start, P(0)), pos(s.stop, N)
    ln = e - b
    if not path.nonneg(ln):
        ln = P(0) if path.nonneg(-ln) else t.mmax(ln, P(0))
    if s.step is not None and s.step != 1:
        ln = fdiv(ln + s.step - 1, P(s.step))
    return b, ln


def getitem(it, x, i):
    idx = list(i) if isinstance(i, tuple) else [i]
    idx = [list(k.items) if isinstance(k, Lazy) else k for k in idx]
    masks = [k for k in idx if isinstance(k, T) or isinstance(k, list)]
    if masks:
        return adv_get(it, x, idx)
    n_real = sum(1 for k in idx if k is not None and k is not Ellipsis)
    nd = len(x.shape)
    if n_real > nd:
        raise exc("IndexError", "too many indices for tensor of dimension %d" % nd)
    if Ellipsis in [k for k in idx if k is Ellipsis]:
        j = [n for n, k in enumerate(idx) if k is Ellipsis][0]
        idx = idx[:j] + [slice(None)] * (nd - n_real) + idx[j + 1:]
    else:
        idx = idx + [slice(None)] * (nd - n_real)
    spec, shape, d = [], [], 0
    contig = x.contig
    allfull = True
    for k in idx:
        if k is None:
            shape.append(1)
            continue
        n = x.shape[d]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                spec.append(("sl", len(shape), P(0), P(1), True))
                shape.append(n)
            else:
                b, ln = norm_slice(it, k, n)
                step = P(k.step if k.step is not None else 1)
                full = b == P(0) and ln == pk(n)[0] and step == P(1)
                spec.append(("sl", len(shape), b, step, full))
                shape.append(mk(ln, "i"))
                if not full:
                    allfull = False
                    if d > 0 and contig is True:
                        contig = _maybe_contig(x.shape[:d])
        elif isnum(k) and not isinstance(k, Fraction):
            p = pk(k)[0]
            path = it.path
            N = pk(n)[0]
            if path.nonneg(-p - 1):
                p = p + N
            elif not path.nonneg(p):
                if path.decide(t.b_lt0(p), "index sign"):
                    p = p + N
            if path.prove(t.b_lt0(p - N)) is False:
                raise exc("IndexError", "index out of range")
            spec.append(("fix", p))
            allfull = False
            if d > 0 and contig is True:
                contig = _maybe_contig(x.shape[:d])
        else:
            raise exc("TypeError", "invalid index %r" % (k,))
        d += 1
    v = view(x, shape, Sel([s for s in spec], None, x.shape), contig)
    rg, gin = flow(it, x)
    v.rg, v.gin = (x.rg if it.grad else False), (x.gin if it.grad else frozenset())
    return v


def _maybe_contig(lead):
    return all(isinstance(d, int) and d == 1 for d in lead)


def count_of(it, key, n):
    v = it.path.prove(key)
    if v is not None:
        return mk(n, "i") if v else 0
    p = A("count", key)
    it.path.bounds.setdefault(p.single(), (Fraction(0), None))
    return mk(p, "i")


def adv_get(it, x, idx):
    lead = 0
    for k in idx:
        if isinstance(k, slice) and k == slice(None):
            lead += 1
        else:
            break
    rest = idx[lead:]
    if len(rest) == 1 and isinstance(rest[0], T) and rest[0].kind == "b":
        m = rest[0]
        n = count_of(it, ckey(m), numel_p(m))
        key = it.path.under(ckey(m), ckey(x)) if x.kind != 'b' else ckey(x)
        fk = as_poly(key, x.kind)
        dt = x.dtype
        path = it.path
        sh = x.shape[:lead] + (n,) + x.shape[lead + len(m.shape):]
        mk_ = ckey(m)
        def seln(i):
            p = real_atom("sel", fk, mk_, *i) if dt.kind == "f" else A("sel", fk, mk_, *i)
            path.inherit(p, fk)
            return p
        out = new(it, seln, sh, dt, x.device, "select", *flow(it, x))
        out.msel = (reader(x), reader(m), lead, mk_, fk)
        return out
    if len(rest) == 1 and (isinstance(rest[0], list) or (isinstance(rest[0], T) and rest[0].kind == "i")):
        j = rest[0]
        if isinstance(j, list):
            j = tensor(it, j)
        r, rj, k = reader(x), reader(j), len(j.shape)
        sh = x.shape[:lead] + j.shape + x.shape[lead + 1:]

        def fn(i):
            v = rj(tuple(i[lead:lead + k]))
            return r(tuple(i[:lead]) + (v,) + tuple(i[lead + k:]))
        return new(it, fn, sh, x.dtype, x.device, "index", *flow(it, x))
    if lead == 0 and all(isinstance(k, T) and k.kind == "i" for k in rest):
        sh = ()
        for k in rest:
            sh = broadcast(it, sh, k.shape)
        r = reader(x)
        rs = [(reader(k), bidx(it, k, len(sh))) for k in rest]
        n = len(sh)
        return new(it, lambda i: r(tuple(a(b(i[:n])) for a, b in rs) + tuple(i[n:])), sh + x.shape[len(rest):], x.dtype,
                   x.device, "index", *flow(it, x))
    raise Unsupported("advanced indexing %r" % (idx,))


def setitem(it, x, i, v, node=None):
    idx = list(i) if isinstance(i, tuple) else [i]
    if isinstance(v, T) and v.parent is x and not any(isinstance(k, T) for k in idx) and v.inplaced:
        return                                     # x[...] op= y writes back the same view
    if any(isinstance(k, (T, list)) for k in idx):
        lead = 0
        for k in idx:
            if isinstance(k, slice) and k == slice(None):
                lead += 1
            elif k is Ellipsis:
                lead = len(x.shape) - len(idx[-1].shape) if isinstance(idx[-1], T) else lead
            else:
                break
        rest = [k for k in idx[lead:] if k is not Ellipsis]
        if len(rest) == 1 and isinstance(rest[0], T) and rest[0].kind == "b":
            m = rest[0]
            rm, mk_ = reader(m), ckey(m)
            nm = len(m.shape)
            if isinstance(v, T):
                if v.msel is not None and v.msel[3] == mk_ and v.msel[2] == lead:
                    rv = v.msel[0]
                    if v.kind == "b" and x.kind != "b":
                        raise Unsupported("bool to number masked store")
                    note_grad(it, x, v)
                    return write(it, x, lambda j: rm(tuple(j[lead:lead + nm])), rv, node)
                if not v.shape:
                    rv0 = reader(v)
                    note_grad(it, x, v)
                    return write(it, x, lambda j: rm(tuple(j[lead:lead + nm])), lambda j: rv0(()), node)
                vk = as_poly(ckey(v), v.kind)
                note_grad(it, x, v)
                return write(it, x, lambda j: rm(tuple(j[lead:lead + nm])),
                             lambda j: real_atom("unsel", vk, mk_, *j), node)
            p = pk(v)[0]
            return write(it, x, lambda j: rm(tuple(j[lead:lead + nm])), lambda j: p, node)
        raise Unsupported("advanced index store")
    dst = getitem(it, x, i)
    assign_into(it, dst, v, node)


def note_grad(it, x, v):
    if it.grad and isinstance(v, T) and v.rg:
        r = x.root()
        x.rg = r.rg = True
        x.gin = r.gin = r.gin | v.gin


def assign_into(it, dst, v, node=None):
    if isinstance(v, T):
        sh = broadcast(it, dst.shape, v.shape)
        if len(sh) != len(dst.shape):
            raise exc("RuntimeError", "shape mismatch in assignment")
        for a, b in zip(sh, dst.shape):
            e = dim_eq(it, a, b)
            if e is False:
                raise exc("RuntimeError", "shape mismatch in assignment")
        r, bi = reader(v), bidx(it, v, len(dst.shape))
        cv = numf(v) if dst.kind != "b" else (lambda z: z)
        if dst.kind == "b" and v.kind != "b":
            cv = t.truth
        note_grad(it, dst, v)
        if dst.kind == "i" and v.kind == "f":
            write(it, dst, always, lambda idx: A("trunc", r(bi(idx))), node)
        else:
            write(it, dst, always, lambda idx: cv(r(bi(idx))), node)
    else:
        p = (v.b if isinstance(v, B) else t.T if v else t.F) if dst.kind == "b" else pk(v)[0]
        write(it, dst, always, lambda idx: p, node)


def inplace(it, op, a, b, node):
    r = binary(it, op, a, b)
    if a.kind in "bi" and r.kind == "f":
        raise exc("RuntimeError", "result type Float can't be cast to the desired output type Long")
    rr = reader(r)
    note_grad(it, a, b) if isinstance(b, T) else None
    write(it, a, always, lambda idx: rr(idx), node)
    a.inplaced = True
    return a


# -------------------------------------------------------------- attributes
def getattr(it, x, n):
    if n == "shape":
        return Size(x.shape)
    if n == "ndim":
        return len(x.shape)
    if n == "dtype":
        return x.dtype
    if n == "device":
        return x.device
    if n == "is_cuda":
        return x.device.type == "cuda"
    if n == "requires_grad":
        return x.rg
    if n in ("T", "mT"):
        k = len(x.shape)
        o = list(range(k))
        if n == "T":
            o = o[::-1]
        else:
            o[-1], o[-2] = o[-2], o[-1]
        return view(x, [x.shape[i] for i in o], Perm(o), False)
    if n in ("real", "imag"):
        return elementwise(it, lambda v: real_atom("fn", n, v), [x], F32)
    if n == "grad":
        return None
    if n == "data":
        v = view(x, x.shape, Perm(list(range(len(x.shape)))), x.contig)
        v.rg, v.gin = False, frozenset()
        return v
    if n == "is_leaf":
        return x.root().st.label.startswith("input:")
    if n == "names":
        return ()
    if n in METHODS or n in ("shape",):
        return Native(lambda *a, **k: METHODS[n](it, x, *a, **k), n)
    raise Unsupported("tensor attribute %s" % n)


def setattr(it, x, n, v):
    if n == "requires_grad":
        x.rg = bool(v)
        return
    if n == "data" and isinstance(v, T):
        x.st, x.parent, x.op, x.shape = v.st, v.parent, v.op, v.shape
        return
    raise Unsupported("setting tensor attribute %s" % n)


def call_method(it, x, n, *a, **k):
    return METHODS[n](it, x, *a, **k)


def _shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        return list(a[0])
    return list(a)


def m_contiguous(it, x, **kw):
    if x.contig is True:
        return x
    r = reader(x)
    y = new(it, r, x.shape, x.dtype, x.device, "contiguous", *flow(it, x))
    y.copy_of = x
    alias(it, x, y)
    return y


def alias(it, x, y):
    """y is a copy of the view x unless x happens to be contiguous."""
    v = x
    while v is not None and v.parent is not None:
        if isinstance(v.op, Perm):
            big = [o for d, o in zip(v.shape, v.op.order) if it.path.nonneg(pk(d)[0] - 2)]
            if big != sorted(big):
                return
        elif isinstance(v.op, Expand) and any(
                one and it.path.nonneg(pk(d)[0] - 2) for d, one in zip(v.shape[v.op.lead:], v.op.pshape)):
            return
        v = v.parent
    st = x.root().st
    st.aliases = st.aliases + [y.st]


def m_clone(it, x, **kw):
    return new(it, reader(x), x.shape, x.dtype, x.device, "clone", *flow(it, x))


def m_detach(it, x):
    v = view(x, x.shape, Perm(list(range(len(x.shape)))), x.contig)
    v.rg, v.gin = False, frozenset()
    return v


def m_requires_grad_(it, x, v=True):
    v = it.truth(v)
    x.rg = v
    if not v:
        x.gin = frozenset()
    return x


def m_numel(it, x):
    return mk(numel_p(x), "i")


def m_size(it, x, d=None):
    return Size(x.shape) if d is None else x.shape[d]


def m_resize_(it, x, *a, **kw):
    sh = tuple(_shape_args(a))
    if x.parent is not None:
        raise Unsupported("resize_ of a view")
    k = nid()
    x.shape = tuple(_dim(d) for d in sh)
    x.st.shape = x.shape
    x.st.fn = (lambda idx: A("uninit", k, *idx))
    it.events.append(("resize", x.st, x))
    return x


def m_fill_(it, x, v):
    assign_into(it, x, v, it.node)
    return x


def m_zero_(it, x):
    return m_fill_(it, x, 0)


def m_copy_(it, x, y, *a, **k):
    assign_into(it, x, y, it.node)
    return x


def m_data_ptr(it, x):
    return Ptr(x)


class Ptr:
    """Address of a tensor's first element."""

    def __init__(self, x):
        self.t = x

    def __repr__(self):
        return "ptr(%r)" % self.t

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.t.st is self.t.st and o.t.parent is None and self.t.parent is None

    def __hash__(self):
        return hash(self.t.st.id)


def m_view(it, x, *a, **kw):
    a = _shape_args(a)
    if len(a) == 1 and isinstance(a[0], DType):
        raise Unsupported("view as another dtype")
    sh = list(a)
    if sum(1 for d in sh if isinstance(d, int) and d == -1) > 1:
        raise exc("RuntimeError", "only one dimension can be inferred")
    total = numel_p(x)
    for i, d in enumerate(sh):
        if isinstance(d, int) and d == -1:
            q = P(1)
            for j, e in enumerate(sh):
                if j != i:
                    q = q * pk(e)[0]
            if q.const() == 0:
                raise exc("RuntimeError", "cannot reshape tensor of 0 elements into shape with -1")
            sh[i] = mk(fdiv(total, q), "i")
    q = P(1)
    for d in sh:
        q = q * pk(d)[0]
    if q != total:
        if it.path.prove(t.b_eq0(q - total)) is not True:
            if it.path.prove(t.b_eq0(q - total)) is False:
                raise exc("RuntimeError", "shape is invalid for input of size")
            raise Unsupported("view: cannot relate sizes %s and %s" % (t.show(q), t.show(total)))
    groups = []
    i = j = 0
    ps, vs = list(x.shape), sh
    while i < len(ps) or j < len(vs):
        gi, gj = [i] if i < len(ps) else [], [j] if j < len(vs) else []
        pi = pk(ps[i])[0] if i < len(ps) else P(1)
        pj = pk(vs[j])[0] if j < len(vs) else P(1)
        i += 1 if gi else 0
        j += 1 if gj else 0
        while pi != pj:
            # grow the side that divides the other
            if i < len(ps) and _divides(pi * pk(ps[i])[0], pj):
                pi = pi * pk(ps[i])[0]
                gi.append(i)
                i += 1
            elif j < len(vs) and _divides(pj * pk(vs[j])[0], pi):
                pj = pj * pk(vs[j])[0]
                gj.append(j)
                j += 1
            elif i < len(ps):
                pi = pi * pk(ps[i])[0]
                gi.append(i)
                i += 1
            elif j < len(vs):
                pj = pj * pk(vs[j])[0]
                gj.append(j)
                j += 1
            else:
                if it.path.prove(t.b_eq0(pi - pj)):
                    break
                raise Unsupported("view grouping")
        groups.append({"p": gi, "pd": [ps[k] for k in gi], "v": gj, "vd": [vs[k] for k in gj]})
    v = view(x, sh, Reshape(groups), x.contig)
    if not it.grad:
        v.rg, v.gin = False, frozenset()
    return v


def _divides(a, b):
    """a divides b (polynomials that are products of dimensions)."""
    q = fdiv(b, a)
    return q * a == b and not any(t.key(k)[0] == "fdiv" for k in q.atoms())


def m_reshape(it, x, *a, **kw):
    if x.contig is True:
        return m_view(it, x, *a, **kw)
    y = m_clone(it, x)
    alias(it, x, y)
    return m_view(it, y, *a, **kw)


def m_flatten(it, x, start_dim=0, end_dim=-1):
    n = len(x.shape)
    end = end_dim % n
    p = P(1)
    for d in x.shape[start_dim:end + 1]:
        p = p * pk(d)[0]
    return m_reshape(it, x, list(x.shape[:start_dim]) + [mk(p, "i")] + list(x.shape[end + 1:]))


def m_expand(it, x, *a, **kw):
    sh = _shape_args(a)
    lead = len(sh) - len(x.shape)
    if lead < 0:
        raise exc("RuntimeError", "expand: too few dimensions")
    out, ones = [], []
    for i, d in enumerate(sh):
        if i < lead:
            out.append(d)
            continue
        o = x.shape[i - lead]
        if isinstance(d, int) and d == -1:
            out.append(o)
            ones.append(isinstance(o, int) and o == 1)
            continue
        if isinstance(o, int) and o == 1:
            out.append(d)
            ones.append(True)
            continue
        e = dim_eq(it, o, d)
        if e is None:
            if it.path.decide(t.b_eq0(pk(o)[0] - pk(d)[0]), "expand"):
                e = True
            elif it.path.decide(t.b_eq0(pk(o)[0] - 1), "expand"):
                out.append(d)
                ones.append(True)
                continue
            else:
                e = False
        if not e:
            raise exc("RuntimeError", "expanded size must match")
        out.append(d)
        ones.append(False)
    v = view(x, out, Expand(lead, ones, out), False)
    if not it.grad:
        v.rg, v.gin = False, frozenset()
    return v


def m_expand_as(it, x, y):
    return m_expand(it, x, *y.shape)


def m_permute(it, x, *a):
    o = [d % len(x.shape) for d in _shape_args(a)]
    v = view(x, [x.shape[i] for i in o], Perm(o), x.contig if o == sorted(o) else _perm_contig(x, o))
    if not it.grad:
        v.rg, v.gin = False, frozenset()
    return v


def _perm_contig(x, o):
    big = [d for d in o if not (isinstance(x.shape[d], int) and x.shape[d] == 1)]
    return x.contig if big == sorted(big) else False


def movedim(it, x, src, dst):
    n = len(x.shape)
    if isinstance(src, (tuple, list)):
        raise Unsupported("movedim of several dims")
    src, dst = src % n, dst % n
    o = [d for d in range(n) if d != src]
    o.insert(dst, src)
    return m_permute(it, x, *o)


def m_transpose(it, x, a, b):
    o = list(range(len(x.shape)))
    a, b = a % len(o), b % len(o)
    o[a], o[b] = o[b], o[a]
    return m_permute(it, x, *o)


def m_unsqueeze(it, x, d):
    d = d % (len(x.shape) + 1)
    return getitem(it, x, tuple([slice(None)] * d + [None]))


def m_squeeze(it, x, d=None):
    idx = []
    for i, n in enumerate(x.shape):
        one = isinstance(n, int) and n == 1
        idx.append(0 if one and (d is None or i == d % len(x.shape)) else slice(None))
    return getitem(it, x, tuple(idx))


def m_gather(it, x, dim, index):
    dim = dim % len(x.shape)
    r, ri = reader(x), reader(index)

    def fn(idx):
        j = ri(idx)
        return r(tuple(j if k == dim else i for k, i in enumerate(idx)))
    out = new(it, fn, index.shape, x.dtype, x.device, "gather", *flow(it, x))
    it.events.append(("gather", x, index, dim))
    return out


def m_scatter_add_(it, x, dim, index, src):
    dim = dim % len(x.shape)
    ri, rs, rx = reader(index), reader(src), reader(x)
    n = index.shape[dim]

    def fn(idx):
        bv = A("bv", len(idx))
        at = tuple(bv if k == dim else i for k, i in enumerate(idx))
        return rx(idx) + real_atom("sum", bv, pk(n)[0], t.b_eq0(ri(at) - idx[dim]), rs(at))
    note_grad(it, x, src)
    write(it, x, always, fn, it.node)
    it.events.append(("scatter", x, index, src, dim))
    return x


def m_scatter_add(it, x, dim, index, src):
    y = m_clone(it, x)
    return m_scatter_add_(it, y, dim, index, src)


def m_long(it, x):
    return m_to(it, x, I64)


def m_to(it, x, *a, **kw):
    dt, dev = x.dtype, x.device
    for v in list(a) + list(kw.values()):
        if isinstance(v, DType):
            dt = v
        elif isinstance(v, Device):
            dev = v
        elif isinstance(v, str):
            dev = Device(v)
        elif isinstance(v, T):
            dt, dev = v.dtype, v.device
    if dt is x.dtype and dev == x.device:
        return x
    r = reader(x)
    if x.kind == "b" and dt.kind != "b":
        f = lambda i: t.b_val(r(i))
    elif dt.kind == "b" and x.kind != "b":
        f = lambda i: t.truth(r(i))
    elif x.kind == "f" and dt.kind == "i":
        f = lambda i: A("trunc", r(i))
    else:
        f = r
    return new(it, f, x.shape, dt, dev, "to", *flow(it, x))


def opaque1(name, keepkind=True):
    def f(it, x, *a, **kw):
        extra = tuple(repr(v) for v in a) + tuple("%s=%r" % kv for kv in sorted(kw.items()))
        return elementwise(it, lambda v: real_atom("fn", name, v, *extra), [x], x.dtype if x.kind in "fc" else F32)
    return f


def m_abs(it, x):
    def f(v):
        c = v.const()
        if c is not None:
            return P(abs(c))
        if it.path.nonneg(v):
            return v
        if it.path.nonneg(-v):
            return -v
        p = A("abs", v)
        if x.kind == "f":
            FLOATS.add(p.single())
        return p
    dt = F32 if x.kind == "c" else x.dtype
    return elementwise(it, f, [x], dt)


def reduce_(name):
    def f(it, x, dim=None, keepdim=False, **kw):
        if isinstance(dim, T):
            return elementwise(it, (lambda a, b: t.mmax(a, b)) if name == "max" else (lambda a, b: t.mmin(a, b)),
                               [x, dim], x.dtype)
        if "axis" in kw:
            dim = kw["axis"]
        n = len(x.shape)
        dims = list(range(n)) if dim is None else [d % n for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
        kind = x.kind
        if name in ("max", "min") and dim is None and numel_p(x).const() == 0:
            raise exc("RuntimeError", "%s(): Expected reduction dim to be specified for input.numel() == 0" % name)
        if name in ("max", "min") and dim is None and numel_p(x).const() is None:
            if it.path.decide(t.b_eq0(numel_p(x)), "empty reduction"):
                raise exc("RuntimeError", "%s(): Expected reduction dim to be specified for input.numel() == 0" % name)
        r = reader(x)
        sizes = [x.shape[d] for d in dims]
        osh = [1 if d in dims else x.shape[d] for d in range(n)]
        if not keepdim:
            osh = [x.shape[d] for d in range(n) if d not in dims]
        dt = BOOL if name in ("any", "all") else x.dtype
        if name in ("sum", "prod", "cumsum") and kind in "b":
            dt = I64
        if name in ("mean",):
            dt = x.dtype
        small = 1
        for s in sizes:
            small = small * s if isinstance(s, int) and small is not None else None
            if small is None:
                break

        def full(idx, rep):
            idx = list(idx)
            o, k = [], 0
            for d in range(n):
                if d in dims:
                    o.append(rep[dims.index(d)])
                    if keepdim:
                        k += 1
                else:
                    o.append(idx[k])
                    k += 1
            return tuple(o)

        def fn(idx):
            if small is not None and small <= 64:
                vals = []

                def rec(rep, i):
                    if i == len(sizes):
                        vals.append(r(full(idx, rep)))
                        return
                    for j in range(sizes[i]):
                        rec(rep + [P(j)], i + 1)
                rec([], 0)
                if name in ("sum", "mean"):
                    v = P(0)
                    for z in vals:
                        v = v + as_poly(z, kind)
                    return v * P(Fraction(1, len(vals))) if name == "mean" else v
                if name == "prod":
                    v = P(1)
                    for z in vals:
                        v = v * as_poly(z, kind)
                    return v
                if name in ("any", "all"):
                    vals = [z if kind == "b" else t.truth(z) for z in vals]
                    return t.b_or(*vals) if name == "any" else t.b_and(*vals)
                if name in ("max", "min") and vals:
                    v = vals[0]
                    for z in vals[1:]:
                        v = t.mmax(v, z) if name == "max" else t.mmin(v, z)
                    return v
            bvs = [A("bv", 20 + i) for i in range(len(sizes))]
            body = as_poly(r(full(idx, bvs)), kind)
            k = tuple(pk(s)[0] for s in sizes)
            if name in ("any", "all"):
                c = body.const()
                if c is not None and all(it.path.nonneg(z - 1) for z in k):
                    return t.T if c else t.F
                return ("eq", A("red", name, k, body))
            if kind == "f":
                p = real_atom("red", name, k, body)
            else:
                p = A("red", name, k, body)
            if name in ("max", "min"):
                if not any(_mentions_bv(a) for a in body.atoms()):
                    return body
                it.path.inherit(p, body)
            if name == "sum":
                lo = it.path.lower(body)
                if lo is not None and lo >= 0:
                    it.path.bounds.setdefault(p.single(), (Fraction(0), None))
            return p
        out = new(it, fn, osh, dt, x.device, name, *flow(it, x))
        it.events.append(("reduce", name, x))
        if name in ("max", "min") and dim is not None:
            return (out, new(it, lambda i: A("arg" + name, ckey(x), *i), osh, I64, x.device, "arg" + name))
        return out
    return f


def _mentions_bv(a):
    k = t.key(a)
    return k[0] == "bv" or any(_mbv(x) for x in k[1:])


def _mbv(x):
    if isinstance(x, t.Poly):
        return any(_mentions_bv(a) for a in x.atoms())
    if isinstance(x, tuple):
        return any(_mbv(y) for y in x)
    return False


def m_flip(it, x, *dims):
    dims = [d % len(x.shape) for d in _shape_args(dims)]
    r = reader(x)
    ns = [pk(n)[0] for n in x.shape]
    return new(it, lambda i: r(tuple(ns[k] - 1 - v if k in dims else v for k, v in enumerate(i))), x.shape, x.dtype,
               x.device, "flip", *flow(it, x))


def m_clamp(it, x, min=None, max=None):
    def f(v, *_):
        if min is not None:
            v = fmax(it, v, pk(min)[0])
        if max is not None:
            v = fmin(it, v, pk(max)[0])
        return v
    return elementwise(it, f, [x], x.dtype)


def fmax(it, a, b):
    path = it.path
    if path.nonneg(a - b):
        return a
    if path.nonneg(b - a):
        return b
    r = t.mmax(a, b)
    for k in r.atoms():
        if t.key(k)[0] == "max" and not is_int(a - b):
            FLOATS.add(k)
    return r


def fmin(it, a, b):
    return -fmax(it, -a, -b)


def m_new(kind):
    def f(it, x, *a, **kw):
        sh = _shape_args(a)
        return creator(kind)(it, *([sh] if kind != "full" else a), dtype=kw.get("dtype", x.dtype),
                             device=kw.get("device", x.device))
    return f


def m_arith(op):
    def f(it, x, y, **kw):
        if "alpha" in kw:
            y = binary(it, ast.Mult(), y, kw["alpha"]) if isinstance(y, T) else it.arith(ast.Mult(), y, kw["alpha"])
        return binary(it, op(), x, y)
    return f


def m_iarith(op):
    def f(it, x, y, **kw):
        if "alpha" in kw:
            y = binary(it, ast.Mult(), y, kw["alpha"]) if isinstance(y, T) else it.arith(ast.Mult(), y, kw["alpha"])
        return inplace(it, op(), x, y, it.node)
    return f


def m_repeat(it, x, *a):
    sh = _shape_args(a)
    r = reader(x)
    lead = len(sh) - len(x.shape)
    full = [1] * lead + list(x.shape)
    out = [mk(pk(s)[0] * pk(n)[0], "i") for s, n in zip(sh, full)]

    def fn(idx):
        return r(tuple(fmod(i, pk(n)[0]) if not (isinstance(s, int) and s == 1) else i
                       for i, n, s in list(zip(idx, full, sh))[lead:]))
    return new(it, fn, out, x.dtype, x.device, "repeat", *flow(it, x))


def m_tolist(it, x):
    if not x.shape:
        return item(it, x)
    return [m_tolist(it, y) for y in iterate(it, x)]


def m_index_select(it, x, dim, index):
    idx = [slice(None)] * (dim % len(x.shape)) + [index]
    return adv_get(it, x, idx)


def m_narrow(it, x, dim, start, length):
    idx = [slice(None)] * (dim % len(x.shape)) + [slice(start, it.arith(ast.Add(), start, length))]
    return getitem(it, x, tuple(idx))


METHODS = {
    "contiguous": m_contiguous, "clone": m_clone, "detach": m_detach, "requires_grad_": m_requires_grad_,
    "numel": m_numel, "nelement": m_numel, "size": m_size, "resize_": m_resize_, "fill_": m_fill_, "zero_": m_zero_,
    "copy_": m_copy_, "data_ptr": m_data_ptr, "view": m_view, "reshape": m_reshape, "flatten": m_flatten,
    "expand": m_expand, "expand_as": m_expand_as, "permute": m_permute, "transpose": m_transpose, "movedim": movedim,
    "unsqueeze": m_unsqueeze, "squeeze": m_squeeze, "gather": m_gather, "scatter_add_": m_scatter_add_,
    "scatter_add": m_scatter_add, "long": m_long, "to": m_to, "type_as": lambda it, x, y: m_to(it, x, y.dtype),
    "float": lambda it, x: m_to(it, x, F32), "double": lambda it, x: m_to(it, x, F64),
    "int": lambda it, x: m_to(it, x, I32), "bool": lambda it, x: m_to(it, x, BOOL),
    "cpu": lambda it, x: m_to(it, x, CPU), "cuda": lambda it, x: m_to(it, x, CUDA),
    "item": item, "abs": m_abs, "min": reduce_("min"), "max": reduce_("max"), "sum": reduce_("sum"),
    "prod": reduce_("prod"), "any": reduce_("any"), "all": reduce_("all"), "mean": reduce_("mean"),
    "sqrt": opaque1("sqrt"), "exp": opaque1("exp"), "cos": opaque1("cos"), "sin": opaque1("sin"),
    "log": opaque1("log"), "neg": lambda it, x: unary(it, ast.USub(), x),
    "square": lambda it, x: binary(it, ast.Pow(), x, 2), "pow": m_arith(ast.Pow), "mul": m_arith(ast.Mult),
    "add": m_arith(ast.Add), "sub": m_arith(ast.Sub), "div": m_arith(ast.Div), "mul_": m_iarith(ast.Mult),
    "add_": m_iarith(ast.Add), "sub_": m_iarith(ast.Sub), "div_": m_iarith(ast.Div), "flip": m_flip,
    "neg_": lambda it, x: inplace(it, ast.Mult(), x, -1, it.node),
    "clamp": m_clamp, "clip": m_clamp, "new_zeros": m_new("zeros"), "new_empty": m_new("empty"),
    "new_ones": m_new("ones"), "repeat": m_repeat, "tolist": m_tolist, "index_select": m_index_select,
    "narrow": m_narrow, "dim": lambda it, x: len(x.shape), "ndimension": lambda it, x: len(x.shape),
    "is_contiguous": lambda it, x, **k: x.contig is True, "get_device": lambda it, x: x.device.index,
    "element_size": lambda it, x: x.dtype.size, "reciprocal": lambda it, x: binary(it, ast.Div(), 1, x),
    "is_floating_point": lambda it, x: x.kind == "f", "is_complex": lambda it, x: x.kind == "c",
    "roll": lambda it, x, s, d=None: roll(it, x, s, d), "record_stream": lambda it, x, s: None,
    "eq": lambda it, x, y: compare(it, ast.Eq(), x, y), "ne": lambda it, x, y: compare(it, ast.NotEq(), x, y),
    "lt": lambda it, x, y: compare(it, ast.Lt(), x, y), "gt": lambda it, x, y: compare(it, ast.Gt(), x, y),
    "le": lambda it, x, y: compare(it, ast.LtE(), x, y), "ge": lambda it, x, y: compare(it, ast.GtE(), x, y),
    "masked_fill": lambda it, x, m, v: where(it, m, v, x), "nonzero": lambda it, x, **k: _uns("nonzero"),
    "masked_fill_": lambda it, x, m, v: (setitem(it, x, m, v, it.node), x)[1],
    "retain_grad": lambda it, x: None, "register_hook": lambda it, x, f: None,
    "unbind": lambda it, x, d=0: tuple(getitem(it, x, tuple([slice(None)] * d + [i])) for i in range(x.shape[d])),
    "logical_and": lambda it, x, y: binary(it, ast.BitAnd(), x, y),
    "logical_or": lambda it, x, y: binary(it, ast.BitOr(), x, y),
    "logical_not": lambda it, x: unary(it, ast.Invert(), x), "rsub": lambda it, x, y: binary(it, ast.Sub(), y, x),
    "multiply": m_arith(ast.Mult), "divide": m_arith(ast.Div), "subtract": m_arith(ast.Sub),
    "absolute": m_abs, "true_divide": m_arith(ast.Div), "negative": lambda it, x: unary(it, ast.USub(), x),
    "amax": reduce_("max"), "amin": reduce_("min"),
}


def _uns(n):
    raise Unsupported(n)


def roll(it, x, s, d):
    n = len(x.shape)
    d = d % n
    N = pk(x.shape[d])[0]
    r = reader(x)
    p = pk(s)[0]
    return new(it, lambda i: r(tuple(fmod(v - p, N) if k == d else v for k, v in enumerate(i))), x.shape, x.dtype,
               x.device, "roll", *flow(it, x))


# -------------------------------------------------------------- torch functions
def creator(kind):
    def f(it, *a, **kw):
        dt = kw.get("dtype")
        dev = kw.get("device")
        dev = todev(dev)
        if kind == "full":
            sh, fv = _shape_args(a[:1]), (a[1] if len(a) > 1 else kw["fill_value"])
            if dt is None:
                dt = F32 if pk(fv)[1] == "f" else I64
        else:
            sh = _shape_args(a if a else (kw["size"],))
            fv = {"zeros": 0, "ones": 1, "empty": None}[kind]
        dt = dt or F32
        for d in sh:
            if not isnum(d) or isinstance(d, Fraction):
                raise exc("TypeError", "size must be ints")
        if fv is None:
            k = nid()
            fn = (lambda idx: ("eq", A("uninit", k, *idx))) if dt.kind == "b" else (lambda idx: A("uninit", k, *idx))
        elif dt.kind == "b":
            v = t.T if it.truth(fv) else t.F
            fn = lambda idx: v
        else:
            p = pk(fv)[0]
            fn = lambda idx: p
        x = new(it, fn, sh, dt, dev, kind + "@" + it.where(it.node))
        if kw.get("requires_grad"):
            x.rg = True
        x.st.pinned = bool(kw.get("pin_memory"))
        it.events.append(("alloc", x))
        return x
    return f


def todev(d):
    if d is None:
        return CPU
    if isinstance(d, Device):
        return d
    if isinstance(d, str):
        return Device(*([d] if ":" not in d else [d.split(":")[0], int(d.split(":")[1])]))
    raise Unsupported("device %r" % (d,))


def like(kind):
    def f(it, x, *a, **kw):
        kw2 = {k: v for k, v in kw.items() if k in ("requires_grad",)}
        dt = kw.get("dtype") or x.dtype
        y = creator(kind)(it, *([list(x.shape)] + list(a)), dtype=dt, device=kw.get("device", x.device), **kw2)
        return y
    return f


def tensor(it, data, dtype=None, device=None, requires_grad=False, **kw):
    if isinstance(data, T):
        return m_clone(it, data)
    if isnum(data):
        p, k = pk(data)
        if isinstance(data, (bool, B)):
            f = data.b if isinstance(data, B) else (t.T if data else t.F)
            return new(it, lambda i: f, (), dtype or BOOL, todev(device), "tensor")
        return new(it, lambda i: p, (), dtype or (I64 if k == "i" else F32), todev(device), "tensor")
    if isinstance(data, Lazy):
        data = list(data.items)
    if isinstance(data, (list, tuple)):
        xs = [tensor(it, d, dtype, device) for d in data]
        if not xs:
            return new(it, lambda i: P(0), (0,), dtype or F32, todev(device), "tensor")
        return stack(it, xs)
    raise Unsupported("torch.tensor of %r" % (data,))


def stack(it, xs, dim=0):
    xs = list(it.iterate(xs))
    rs = [reader(x) for x in xs]
    n = len(xs[0].shape)
    dim = dim % (n + 1)

    def fn(idx):
        k = idx[dim].const()
        rest = idx[:dim] + idx[dim + 1:]
        if k is not None:
            return rs[int(k)](rest)
        v = rs[-1](rest)
        for j in range(len(rs) - 2, -1, -1):
            c = t.b_eq0(idx[dim] - j)
            if xs[0].kind == "b":
                v = t.b_or(t.b_and(c, rs[j](rest)), t.b_and(t.b_not(c), v))
            else:
                v = it.path.simp(c, lambda: rs[j](rest), lambda v=v: v)
        return v
    sh = list(xs[0].shape)
    sh.insert(dim, len(xs))
    return new(it, fn, sh, xs[0].dtype, xs[0].device, "stack", *flow(it, *xs))


def cat(it, xs, dim=0):
    xs = [x for x in it.iterate(xs) if not (len(x.shape) == 1 and isinstance(x.shape[0], int) and x.shape[0] == 0)]
    dim = dim % len(xs[0].shape)
    rs = [(reader(x), pk(x.shape[dim])[0]) for x in xs]

    def fn(idx):
        off = P(0)
        cases = []
        for r, n in rs:
            cases.append((off, off + n, r))
            off = off + n
        i = idx[dim]
        v = cases[-1][2](idx[:dim] + (i - cases[-1][0],) + idx[dim + 1:])
        for a, b, r in reversed(cases[:-1]):
            v = it.path.simp(t.b_lt0(i - b), lambda: r(idx[:dim] + (i - a,) + idx[dim + 1:]), lambda v=v: v)
        return v
    sh = list(xs[0].shape)
    n = P(0)
    for r, m in rs:
        n = n + m
    sh[dim] = mk(n, "i")
    return new(it, fn, sh, xs[0].dtype, xs[0].device, "cat", *flow(it, *xs))


def pad(it, x, pad, mode="constant", value=None):
    ps = list(it.iterate(pad))
    n = len(x.shape)
    lo, hi = [P(0)] * n, [P(0)] * n
    for k in range(len(ps) // 2):
        lo[n - 1 - k], hi[n - 1 - k] = pk(ps[2 * k])[0], pk(ps[2 * k + 1])[0]
    if mode != "constant" and n - len(ps) // 2 not in (1, 2):
        raise exc("NotImplementedError", "Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now")
    r = reader(x)
    sh = [mk(pk(d)[0] + a + b, "i") for d, a, b in zip(x.shape, lo, hi)]
    fill = pk(value)[0] if value is not None else P(0)
    path = it.path
    ns = [pk(d)[0] for d in x.shape]

    def fn(idx):
        src = [i - a for i, a in zip(idx, lo)]
        if mode == "replicate":
            return r(tuple(s if a == b == P(0) else fmin(it, fmax(it, s, P(0)), m - 1)
                           for s, m, a, b in zip(src, ns, lo, hi)))
        if mode == "constant":
            cs = []
            for s, m, a, b in zip(src, ns, lo, hi):
                if a != P(0):
                    cs.append(t.b_not(t.b_lt0(s)))
                if b != P(0):
                    cs.append(t.b_lt0(s - m))
            return path.simp(t.b_and(*cs), lambda: r(tuple(src)), lambda: fill)
        return real_atom("pad", mode, r(ix(n)), *(list(idx) + lo + hi))
    y = new(it, fn, sh, x.dtype, x.device, "pad", *flow(it, x))
    y.padded = (x, tuple(lo), tuple(hi), mode)
    return y


def where(it, c, a=None, b=None):
    if a is None:
        raise Unsupported("torch.where(condition)")
    ts = [v for v in (c, a, b) if isinstance(v, T)]
    sh = ()
    for v in ts:
        sh = broadcast(it, sh, v.shape)
    dt = promote(a, b) if isinstance(a, T) or isinstance(b, T) else (F32 if "f" in (pk(a)[1], pk(b)[1]) else I64)
    path = it.path
    ca, cb = numf(a), numf(b)
    cc = (lambda v: v) if c.kind == "b" else t.truth

    def f(cv, av, bv):
        if dt.kind == "b":
            return t.b_or(t.b_and(cc(cv), av), t.b_and(t.b_not(cc(cv)), bv))
        return path.simp(cc(cv), lambda: ca(av), lambda: cb(bv))
    return elementwise(it, f, [c, a, b], dt, shape=sh)


def arange(it, *a, **kw):
    s, e, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    (ps, i), (pe, j), (pst, k) = pk(s), pk(e), pk(st)
    if not (isinstance(st, int) and st == 1):
        n = mk(fdiv(pe - ps + pst - 1, pst), "i") if "f" not in (i, j, k) else S(A("fn", "ceil", (pe - ps) * t.inv(pst)), "i")
    else:
        d = pe - ps
        if not is_int(d):
            c = d.const()
            if c is None:
                # start + n with a real start: n elements
                raise Unsupported("arange length")
            import math
            n = math.ceil(c)
        else:
            n = mk(d, "i")
    dt = kw.get("dtype") or (F32 if "f" in (i, j, k) else I64)
    return new(it, lambda idx: ps + pst * idx[0], (n,), dt, todev(kw.get("device")), "arange")


def linspace(it, a, b, n, **kw):
    (pa, _), (pb, _) = pk(a), pk(b)
    N = pk(n)[0]
    return new(it, lambda i: pa + (pb - pa) * i[0] * t.inv(N - 1), (n,), kw.get("dtype") or F32, todev(kw.get("device")),
               "linspace")


def maxmin(which):
    def f(it, a, b=None, *r, **kw):
        if b is None or isinstance(b, int):
            return reduce_(which)(it, a, *([] if b is None else [b]), **kw)
        return elementwise(it, lambda x, y: (fmax if which == "max" else fmin)(it, x, y), [a, b], promote(a, b))
    return f


def meshgrid(it, *xs, **kw):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if kw.get("indexing") != "ij":
        raise Unsupported("meshgrid without ij indexing")
    sh = [x.shape[0] for x in xs]
    return tuple(new(it, lambda idx, r=reader(x), k=k: r((idx[k],)), sh, x.dtype, x.device, "meshgrid")
                 for k, x in enumerate(xs))


def cartesian_prod(it, *xs):
    if len(xs) == 1:
        return xs[0]
    ns = [pk(x.shape[0])[0] for x in xs]
    tot = P(1)
    for n in ns:
        tot = tot * n
    rs = [reader(x) for x in xs]

    def fn(idx):
        parts = Reshape._split(idx[0], [mk(n, "i") for n in ns])
        k = idx[1].const()
        if k is not None:
            return rs[int(k)]((parts[int(k)],))
        v = rs[-1]((parts[-1],))
        for j in range(len(rs) - 2, -1, -1):
            v = t.ite(t.b_eq0(idx[1] - j), rs[j]((parts[j],)), v)
        return v
    return new(it, fn, (mk(tot, "i"), len(xs)), xs[0].dtype, xs[0].device, "cartesian_prod", *flow(it, *xs))


def fft(name):
    def f(it, x, n=None, dim=-1, norm=None, **kw):
        if dim not in (-1, len(x.shape) - 1):
            raise Unsupported("fft over another dim")
        N = pk(x.shape[-1])[0] if n is None else pk(n)[0]
        r = reader(x)
        if name == "rfft":
            out, dt = fdiv(N, P(2)) + 1, (C64 if x.dtype is F32 else C128)
        else:
            out = N if n is not None else P(2) * (pk(x.shape[-1])[0] - 1)
            dt = F32 if x.dtype is C64 else F64
        src = pk(x.shape[-1])[0]

        def fn(idx):
            from . import pyeq
            bv = A("bv", 40 if name == "rfft" else 41)
            with pyeq.Branch(it.path, None):
                it.path.bounds[bv.single()] = (Fraction(0), None)
                it.path.facts.append((N if name == "rfft" else fdiv(out, P(2)) + 1) - 1 - bv)
                # a spectrum or signal shorter than what is transformed is extended with zeros
                body = t.ite(t.b_lt0(bv - src), r(idx[:-1] + (bv,)), P(0))
                body = pyeq.Simp(it.path).poly(body)
            use = N if name == "rfft" else fdiv(out, P(2)) + 1
            p = A("fn", name, body, out if name == "irfft" else N, use, str(norm), idx[-1])
            FLOATS.add(p.single())
            return p
        y = new(it, fn, x.shape[:-1] + (mk(out, "i"),), dt, x.device, name, *flow(it, x))
        it.events.append((name, x, y, norm, n))
        return y
    return f


def rfftfreq(it, n, d=1, **kw):
    N = pk(n)[0]
    return new(it, lambda i: i[0] * t.inv(N * pk(d)[0]), (mk(fdiv(N, P(2)) + 1, "i"),), kw.get("dtype") or F32,
               todev(kw.get("device")), "rfftfreq")


def hann(it, n, periodic=True, **kw):
    N = pk(n)[0]
    return new(it, lambda i: real_atom("fn", "hann", i[0], N, str(periodic)), (n,), kw.get("dtype") or F32,
               todev(kw.get("device")), "hann_window")


def unique(it, x, **kw):
    if kw.get("return_inverse") or kw.get("return_counts") or kw.get("dim") is not None:
        raise Unsupported("unique with options")
    k = as_poly(ckey(x), x.kind)
    p = A("nunique", k)
    it.path.bounds.setdefault(p.single(), (Fraction(0), None))
    it.path.facts.append(numel_p(x) - p)
    y = new(it, lambda i: A("unique", k, *i), (mk(p, "i"),), x.dtype, x.device, "unique")
    it.events.append(("unique", x))
    return y


def parameter(it, x=None, requires_grad=True):
    y = view(x, x.shape, Perm(list(range(len(x.shape)))), x.contig)
    y.rg = it.truth(requires_grad)
    y.gin = frozenset([x.name or "param"]) if y.rg else frozenset()
    y.param = True
    y.name = x.name
    return y


class Ctx:
    """Context object of an autograd function."""

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.saved = None
        self.extra = []

    def py_getattr(self, it, n):
        if n == "save_for_backward":
            def save(*xs):
                for x in xs:
                    if x is not None and not isinstance(x, T):
                        raise exc("TypeError", "save_for_backward can only save variables")
                self.saved = tuple(xs)
                self.saved_state = [x.root().st.writes if x is not None else None for x in xs]
                it.events.append(("save", self.cls, tuple(xs)))
            return Native(save, n)
        if n == "saved_tensors":
            it.events.append(("load_saved", self.cls))
            return self.saved if self.saved is not None else ()
        if n == "needs_input_grad":
            if "needs_input_grad" not in self.d:
                raise Unsupported("needs_input_grad")
        if n in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
            def mark(*xs):
                it.events.append((n, self.cls, tuple(xs)))
            return Native(mark, n)
        if n in self.d:
            return self.d[n]
        raise exc("AttributeError", "ctx has no attribute %s" % n)

    def py_setattr(self, it, n, v):
        self.d[n] = v


class KFn:
    """Entry point of the compiled library."""

    def __init__(self, name):
        self.name = name
        self.argtypes = None
        self.restype = None

    def __repr__(self):
        return "<kernel %s>" % self.name

    def py_getattr(self, it, n):
        if n in ("argtypes", "restype"):
            return self.__dict__[n]
        if n == "__name__":
            return self.name
        raise exc("AttributeError", n)

    def py_setattr(self, it, n, v):
        self.__dict__[n] = v

    def py_call(self, it, args, kw, node):
        return it.kernel(self, args, node)


class Dll:
    def __init__(self):
        self.f = {}
        self.pat = re.compile(r"(scalar|scalar_born|acoustic|elastic)_iso_[123]d_[2468]_(float|double)_"
                              r"(forward|backward|backward_sc)_(cpu|cuda)$")

    def py_getattr(self, it, n):
        if n == "omp_get_num_threads":
            if it.openmp:
                return Opq(n)
            raise exc("AttributeError", n)
        m = self.pat.match(n)
        if not m or (m.group(3) == "backward_sc" and m.group(1) != "scalar_born"):
            raise exc("AttributeError", n)
        if n not in self.f:
            self.f[n] = KFn(n)
        return self.f[n]


class Ns:
    """Namespace with a fixed set of members."""

    def __init__(self, name, d, opaque=()):
        self.name, self.d, self.opaque = name, d, opaque

    def __repr__(self):
        return "<%s>" % self.name

    def py_getattr(self, it, n):
        if n in self.d:
            return self.d[n]
        if self.opaque is True or n in self.opaque:
            return Opq(self.name + "." + n)
        if n == "__name__":
            return self.name
        if n == "__version__":
            return "2.0"
        if self.name == "torch" and METHODS.get(n):
            f = METHODS[n]
            return Native(lambda x, *a, **k: f(it, x, *a, **k), "torch." + n)
        raise Unsupported("%s.%s" % (self.name, n))


def make_torch(it):
    def N(f, name=None):
        return Native(lambda *a, **k: f(it, *a, **k), name)
    d = {}
    for n in DTYPES:
        d[n] = DTYPES[n]
    d["Tensor"] = Type("Tensor")
    d["dtype"] = Type("dtype")
    d["Size"] = Type("Size")
    d["device"] = Native(lambda a, i=None: a if isinstance(a, Device) else (Device(a, i) if i is not None else todev(a)),
                         "device")
    for k in ("zeros", "ones", "empty", "full"):
        d[k] = N(creator(k), k)
        d[k + "_like"] = N(like(k), k + "_like")
    d["tensor"] = N(tensor)
    d["as_tensor"] = N(lambda it, x, **k: x if isinstance(x, T) else tensor(it, x, **k))
    d["stack"] = N(stack)
    d["cat"] = d["concat"] = N(cat)
    d["where"] = N(where)
    d["arange"] = N(arange)
    d["linspace"] = N(linspace)
    d["maximum"] = N(lambda it, a, b: maxmin("max")(it, a, b))
    d["minimum"] = N(lambda it, a, b: maxmin("min")(it, a, b))
    d["max"] = N(maxmin("max"))
    d["min"] = N(maxmin("min"))
    for k in ("sum", "prod", "any", "all", "mean"):
        d[k] = N(reduce_(k), k)
    for k in ("exp", "cos", "sin", "sinc", "sqrt", "log", "special", "ceil", "floor", "round", "isnan", "isfinite"):
        d[k] = N(opaque1(k), k)
    d["abs"] = N(m_abs)
    d["square"] = N(METHODS["square"])
    d["movedim"] = d["moveaxis"] = N(movedim)
    d["permute"] = N(lambda it, x, dims: m_permute(it, x, *dims))
    d["transpose"] = N(m_transpose)
    d["clamp"] = d["clip"] = N(m_clamp)
    d["hann_window"] = N(hann)
    d["unique"] = N(unique)
    d["cartesian_prod"] = N(cartesian_prod)
    d["meshgrid"] = N(meshgrid)
    d["reshape"] = N(m_reshape)
    d["flip"] = N(m_flip)
    d["roll"] = N(roll)
    d["gather"] = N(m_gather)
    d["unsqueeze"] = N(m_unsqueeze)
    d["flatten"] = N(m_flatten)
    d["numel"] = N(m_numel)
    d["clone"] = N(m_clone)
    d["is_tensor"] = Native(lambda x: isinstance(x, T))
    d["is_floating_point"] = Native(lambda x: x.kind == "f")
    for nm, op in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("div", ast.Div), ("pow", ast.Pow)):
        d[nm] = N(m_arith(op), nm)
    for nm, op in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("gt", ast.Gt), ("le", ast.LtE), ("ge", ast.GtE)):
        d[nm] = Native(lambda a, b, op=op: compare(it, op(), a, b), nm)
    d["neg"] = N(METHODS["neg"])
    d["equal"] = Native(lambda a, b: B(("eq", A("tensor_equal", as_poly(ckey(a), a.kind), as_poly(ckey(b), b.kind)))))
    d["finfo"] = Native(lambda dt: Ns("finfo", {"eps": S(real_atom("eps", dt.name), "f"), "tiny": S(real_atom("tiny", dt.name), "f"), "max": S(real_atom("finfo_max", dt.name), "f")}))
    d["get_num_threads"] = Native(lambda: it.num_threads)
    d["no_grad"] = Native(lambda *a: ("grad", False), "no_grad")
    d["enable_grad"] = Native(lambda *a: ("grad", True), "enable_grad")
    d["is_grad_enabled"] = Native(lambda: it.grad)
    d["promote_types"] = Native(lambda a, b: a if a.size >= b.size else b)
    d["cuda"] = Ns("torch.cuda", {"current_stream": Native(lambda *a: Stream("current"), "current_stream"),
                                  "is_available": Native(lambda: it.cuda)}, True)
    d["Stream"] = Type("Stream")
    d["fft"] = Ns("torch.fft", {"rfft": N(fft("rfft")), "irfft": N(fft("irfft")), "rfftfreq": N(rfftfreq)})
    fn = Ns("torch.nn.functional", {"pad": N(pad)})
    d["nn"] = Ns("torch.nn", {"functional": fn, "Module": Type("Module"), "Parameter": Type("Parameter")})
    once = Native(lambda f: f, "deco:once_differentiable")
    d["autograd"] = Ns("torch.autograd", {
        "Function": Type("Function"),
        "function": Ns("torch.autograd.function", {"once_differentiable": once, "Function": Type("Function")})})
    d["jit"] = Ns("torch.jit", {"script": Native(lambda f: f, "script"), "ignore": Native(lambda f: f, "deco:ignore")}, True)
    d["compile"] = Native(lambda f, **k: f, "compile")
    d["_C"] = Ns("torch._C", {"_functorch": Ns("functorch", {
        "is_functorch_wrapped_tensor": Native(lambda x: it.vmap), "is_batchedtensor": Native(lambda x: it.vmap)})})
    return Ns("torch", d)


class Stream:
    def __init__(self, name):
        self.name = name

    def py_getattr(self, it, n):
        return Opq("stream." + n)


class CT:
    """ctypes type."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, CT) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __mul__(self, n):
        return CArr(self.name, n)

    def py_call(self, it, args, kw, node):
        return args[0] if args else 0


class CArr:
    def __init__(self, name, n):
        self.name, self.n = name, n

    def py_call(self, it, args, kw, node):
        return CArrVal(self, args)


class CArrVal:
    def __init__(self, ty, args):
        self.ty, self.args = ty, args

    def __len__(self):
        return len(self.args)


def libs(it):
    import math
    tor = it.torch
    L = {"torch": tor}
    for k in ("nn", "fft", "autograd", "cuda", "jit", "_C"):
        L["torch." + k] = tor.d[k]
    L["torch.nn.functional"] = tor.d["nn"].d["functional"]
    L["torch.autograd.function"] = tor.d["autograd"].d["function"]
    L["torch._C._functorch"] = tor.d["_C"].d["_functorch"]

    def mfn(name):
        def f(*a):
            if all(not isinstance(x, (S, B)) for x in a):
                if name in ("ceil", "floor"):
                    return int(getattr_math(name)(a[0]))
                if name == "gcd":
                    return math.gcd(*a)
                if name == "prod":
                    return it.prod(it.iterate(a[0]))
                if name == "isclose":
                    return math.isclose(*[float(x) for x in a])
                v = a[0]
                if name == "sqrt" and isinstance(v, (int, Fraction)):
                    r = Fraction(v)
                    if r < 0:
                        raise exc("ValueError", "math domain error")
                    n, m = math.isqrt(r.numerator), math.isqrt(r.denominator)
                    if n * n == r.numerator and m * m == r.denominator:
                        return Fraction(n, m)
            if name == "prod":
                return it.prod(it.iterate(a[0]))
            ps = [pk(x)[0] for x in a]
            if name in ("ceil", "floor", "trunc"):
                if is_int(ps[0]):
                    return a[0]
                if name == "ceil" and it.ceil is not None:
                    return it.ceil(ps[0])
                p = A("ceil" if name == "ceil" else name, ps[0])
                if name == "ceil" and it.path.pos(ps[0]):
                    it.path.bounds.setdefault(p.single(), (Fraction(1), None))
                elif it.path.nonneg(ps[0]):
                    it.path.bounds.setdefault(p.single(), (Fraction(0), None))
                return S(p, "i")
            p = real_atom("fn", name, *ps)
            if name in ("sqrt", "exp"):
                it.path.bounds.setdefault(p.single(), (Fraction(0), None))
                if name == "exp" or it.path.pos(ps[0]):
                    it.path.positive(S(p, "f"))
            return S(p, "f")
        return Native(f, name)

    def getattr_math(n):
        return math.__dict__[n]
    PI = real_atom("pi")
    it.path.bounds[PI.single()] = (Fraction(3), Fraction(4))
    md = {n: mfn(n) for n in ("ceil", "floor", "sqrt", "log", "exp", "cos", "sin", "trunc", "prod", "log2", "log10",
                              "isnan", "isfinite", "isclose", "gcd", "hypot", "pow", "fabs", "isqrt")}
    md["pi"] = S(PI, "f")
    md["inf"] = float("inf")
    md["nan"] = float("nan")
    L["math"] = Ns("math", md)
    cts = {n: CT(n) for n in ("c_bool", "c_double", "c_float", "c_int64", "c_size_t", "c_void_p", "c_int", "c_char_p",
                              "c_int32", "c_uint64", "c_char", "c_long", "c_longlong", "c_uint8")}
    cts["CDLL"] = Native(lambda *a, **k: it.dll, "CDLL")
    cts["Array"] = Type("Array")
    L["ctypes"] = Ns("ctypes", cts, True)
    L["warnings"] = Ns("warnings", {"warn": Native(lambda *a, **k: it.events.append(("warn", a[0] if a else "")), "warn")}, True)
    L["contextlib"] = Ns("contextlib", {"suppress": Native(lambda *e: ("suppress", e), "suppress")}, True)
    L["platform"] = Ns("platform", {"system": Native(lambda: "Linux")}, True)
    L["collections"] = Ns("collections", {"abc": Ns("abc", {n: Type(n) for n in
                                                            ("Sequence", "Iterable", "Callable", "Collection", "Mapping")})})
    L["collections.abc"] = L["collections"].d["abc"]
    L["numbers"] = Ns("numbers", {n: Type(n) for n in ("Number", "Real", "Integral")})
    L["enum"] = Ns("enum", {"IntEnum": Type("IntEnum"), "Enum": Type("IntEnum")})
    ty = {n: Opq("typing." + n) for n in ("Any", "Callable", "Dict", "List", "Literal", "Optional", "Sequence", "Tuple",
                                          "Union", "TypeAlias", "Iterable", "Mapping", "Type", "Final", "Set")}
    ty["TYPE_CHECKING"] = False
    ty["cast"] = Native(lambda ty_, v: v, "cast")
    L["typing"] = Ns("typing", ty, True)
    L["typing_extensions"] = L["typing"]
    L["functools"] = Ns("functools", {"partial": Native(lambda f, *a, **k: Native(
        lambda *b, **l: it.call(f, list(a) + list(b), dict(k, **l)))),
        "reduce": Native(lambda f, xs, *i: _reduce(it, f, xs, *i))}, True)
    L["itertools"] = Ns("itertools", {
        "chain": ChainNs(it), "product": Native(lambda *xs, **k: Lazy(_product(it, xs, k))),
        "zip_longest": Native(lambda *xs, **k: _uns("zip_longest")),
        "repeat": Native(lambda x, n: [x] * n)}, True)
    L["operator"] = Ns("operator", {"mul": Native(lambda a, b: it.binop(ast.Mult(), a, b)),
                                    "add": Native(lambda a, b: it.binop(ast.Add(), a, b))}, True)
    L["os"] = Opq("os")
    L["shutil"] = Opq("shutil")
    L["pathlib"] = Opq("pathlib")
    L["uuid"] = Opq("uuid")
    return L


class ChainNs:
    def __init__(self, it):
        self.it = it

    def py_call(self, it, args, kw, node):
        return Lazy([y for x in args for y in it.iterate(x)])

    def py_getattr(self, it, n):
        return Native(lambda xs: Lazy([y for x in it.iterate(xs) for y in it.iterate(x)]))


def _reduce(it, f, xs, *i):
    ys = list(it.iterate(xs))
    r = i[0] if i else ys.pop(0)
    for y in ys:
        r = it.call(f, [r, y], {})
    return r


def _product(it, xs, k):
    import itertools
    return list(itertools.product(*[list(it.iterate(x)) for x in xs], repeat=k.get("repeat", 1)))
