"""Time-step summaries of the compiled propagators.

From the effect tree of one kernel entry point this builds, for every cell of
the (symbolic) partition of the grid into PML / interior / edge regions, the
table  field -> value  of one time step, with every array access decoded into
(field role, grid offset).  The partition cells are ordered with a difference
bound matrix over  FD_PAD <= pml0 <= max(pml0, pml1-1) <= pml1 <= n-FD_PAD.
"""
import itertools
from fractions import Fraction

from . import cabs, cfront, terms
from .cabs import Ptr, flat
from .cfront import FrontError
from .terms import *
from .terms import key as akey

DIMS = ("z", "y", "x")


def dims_of(ndim):
    return DIMS[3 - ndim:]


class Facts:
    """Difference bounds: le(a, b) proves a <= b for all admissible inputs."""

    def __init__(self, ndim, pad, half=True):
        self.ndim = ndim
        self.pad = pad
        self.dims = dims_of(ndim)
        self.edges = {}
        self._memo = {}
        self.strides = strides(ndim)
        for d in self.dims:
            p0, p1, n = A("p", "pml_%s0" % d), A("p", "pml_%s1" % d), A("p", "n" + d)
            m = mmax(p0, p1 - 1)
            # a - b <= c
            self.add(P(pad), p0)
            self.add(p0, p1)
            self.add(p0, m)
            self.add(m, p1)
            self.add(p1 - 1, m)
            self.add(p1, n - pad)
            # the grid has room for both halos: n >= 2*FD_PAD
            self.add(P(2 * pad), n)
            # a clamped bound max(p0, e) <= p1 for e <= p1
        self.add(ONE, A("p", "n_shots"))

    def split(self, p):
        c = p.m.get((), Fraction(0))
        r = Poly({k: v for k, v in p.m.items() if k != ()})
        return r, c

    def add(self, a, b, c=0):
        """a <= b + c"""
        ra, ca = self.split(P(a))
        rb, cb = self.split(P(b))
        w = cb - ca + c
        k = (ra, rb)
        if k not in self.edges or self.edges[k] > w:
            self.edges[k] = w
        self._memo = {}

    def le(self, a, b):
        """provable a <= b"""
        a, b = P(a), P(b)
        d = (a - b).const()
        if d is not None:
            return d <= 0
        k = (a, b)
        if k in self._memo:
            return self._memo[k]
        ra, ca = self.split(a)
        rb, cb = self.split(b)
        r = False
        dist = self._dist(ra)
        if rb in dist and dist[rb] <= cb - ca:
            r = True
        if not r:
            # max atoms: max(x,y) <= b iff both; a <= max(x,y) if either
            s = ra.single()
            if s is not None and akey(s)[0] == "max":
                r = all(self.le(x + ca, b) for x in akey(s)[1:])
            if not r:
                s = rb.single()
                if s is not None and akey(s)[0] == "max":
                    r = any(self.le(a, x + cb) for x in akey(s)[1:])
                if not r:
                    # min is -max(-..)
                    s = (-ra).single()
                    if s is not None and akey(s)[0] == "max":
                        r = any(self.le(-x + ca, b) for x in akey(s)[1:])
                    if not r:
                        s = (-rb).single()
                        if s is not None and akey(s)[0] == "max":
                            r = all(self.le(a, -x + cb) for x in akey(s)[1:])
        self._memo[k] = r
        return r

    def _dist(self, src):
        # Bellman-Ford from src: src - node <= w  (src <= node + w)
        dist = {src: Fraction(0)}
        changed = True
        n = 0
        while changed and n < 40:
            changed = False
            n += 1
            for (u, v), w in self.edges.items():
                if u in dist:
                    nd = dist[u] + w
                    if v not in dist or dist[v] > nd:
                        dist[v] = nd
                        changed = True
        return dist

    def disjoint(self, w, e, idx, loops):
        """The cells written by w (of finished sweep e) never contain idx."""
        dw = self._box(w.idx, w.loops)
        dr = self._box(idx, loops)
        if dw is None or dr is None:
            return False
        for d in self.dims:
            if d in dw and d in dr:
                (l1, h1), (l2, h2) = dw[d], dr[d]
                if h1 is not None and l2 is not None and self.le(h1, l2):
                    return True
                if h2 is not None and l1 is not None and self.le(h2, l1):
                    return True
        return False

    def _box(self, idx, loops):
        doms = {}
        for l in loops:
            if l.kind == "loop" and l.var is not None and l.lo is not None and l.hi is not None:
                doms[l.var] = (l.lo, l.hi)
        dec = decode(idx, self.ndim, set(doms))
        if dec is None:
            return None
        out = {}
        for d, (a, c) in dec["dims"].items():
            if a in doms:
                lo, hi = doms[a]
                out[d] = (lo + c, hi + c)
        return out


def strides(ndim):
    nx, ny = A("p", "nx"), A("p", "ny")
    if ndim == 1:
        return {"x": ONE}
    if ndim == 2:
        return {"y": nx, "x": ONE}
    return {"z": ny * nx, "y": nx, "x": ONE}


def ngrid(ndim):
    nx, ny, nz = A("p", "nx"), A("p", "ny"), A("p", "nz")
    return {1: nx, 2: ny * nx, 3: nz * ny * nx}[ndim]


def decode(idx, ndim, vars_):
    """Decompose a flat index into per-dimension (loop atom, offset) + rest.

    rest collects everything else (shot, thread and time offsets).
    """
    st = strides(ndim)
    rest = dict(idx.m)
    dims = {}
    # variable terms
    for mono, co in list(rest.items()):
        vs = [(a, e) for a, e in mono if a in vars_]
        if len(vs) != 1 or vs[0][1] != 1 or co != 1:
            continue
        other = Poly({tuple(x for x in mono if x[0] != vs[0][0]): co})
        for d, s in st.items():
            if other == s:
                if d in dims:
                    return None
                dims[d] = [vs[0][0], ZERO]
                del rest[mono]
    # constant offsets per dimension
    for d, s in st.items():
        (mono, one), = s.m.items()
        if mono in rest and d in dims:
            dims[d][1] = P(rest.pop(mono))
    return {"dims": {d: tuple(v) for d, v in dims.items()}, "rest": Poly(rest)}


class StepError(Exception):
    pass


class WInfo:
    """A decoded grid write."""
    __slots__ = ("w", "dims", "rest", "val", "pc", "dom", "base", "sweep", "order", "shot", "unit")


class Kernel:
    """Summary of one compiled entry point."""

    def __init__(self, prop, ndim, acc, pas, device="cpu", dtype="float", rename=None):
        self.prop, self.ndim, self.acc, self.pas, self.device = prop, ndim, acc, pas, device
        self.pad = acc // 2
        self.dims = dims_of(ndim)
        self.file = prop + (".cu" if device == "cuda" else ".c")
        self.tu = cfront.parse(self.file, ndim, acc, dtype)
        self.name = "%s_iso_%dd_%d_%s_%s_%s" % (prop, ndim, acc, dtype, pas, device)
        if self.name not in self.tu.funcs:
            raise FrontError("%s: no function %s" % (self.file, self.name))
        self.fn = self.tu.funcs[self.name]
        self.facts = Facts(ndim, self.pad)
        I = cabs.Interp(self.tu, facts=self.facts)
        self.I = I
        # canonical parameter names: those of the CPU entry point, by position
        self.params = [p[0] for p in self.fn.params]
        if rename:
            for pn, pt, pref in self.fn.params:
                pass
        self.rename = rename or {}
        eff = self.run(I)
        self.effects = eff
        self.find_loops()

    def run(self, I):
        if not self.rename:
            return I.run(self.name)
        # run with canonical names bound to the parameters
        fn = self.fn
        old = fn.params
        fn2 = [(self.rename.get(pn, pn), pt, pr) for pn, pt, pr in old]
        fn.params = fn2
        try:
            return I.run(self.name)
        finally:
            fn.params = old

    # -------------------------------------------------------------- loops
    def find_loops(self):
        nt = terms.atom(("p", "nt"))
        self.tloops = []
        self.shotloop = None

        def rec(effs, chain):
            for e in effs:
                if e.kind == "loop":
                    ps = [x for x in (e.lo, e.hi) if x is not None]
                    if any(nt in x.atoms() for x in ps) or (e.cond is not None and _b_has(e.cond, nt)):
                        self.tloops.append((e, chain))
                    elif e.step == -1 and e.lo is not None and e.hi is not None:
                        # every iteration of these loops is independent of their order
                        e.lo, e.hi, e.step = e.hi + 1, e.lo + 1, Fraction(1)
                    rec(e.body, chain + [e])
                elif e.kind == "launch":
                    rec(e.body, chain + [e])
        rec(self.effects, [])
        if len(self.tloops) != 1:
            raise StepError("%s:%d: expected exactly one time loop in %s, found %d" % (
                self.file, self.fn.line, self.name, len(self.tloops)))
        self.tloop, self.tchain = self.tloops[0]
        ns = A("p", "n_shots")
        for e in self.tchain:
            if e.kind == "loop" and e.hi == ns:
                self.shotloop = e
        self.tvar = self.tloop.var
        self.tnow = self.time()

    def time(self):
        """The time loop's variable in terms of the absolute time step T, which
        starts at start_t and rises or, backwards, falls from start_t - 1."""
        tl, now = self.tloop, A("lv", "T")
        if tl.lo is None or tl.step not in (1, -1):
            return now
        st = A("p", "start_t")
        done = now - st if self.pas == "forward" else st - 1 - now
        return tl.lo + done * P(tl.step)

    # -------------------------------------------------------- specialising
    def subst(self, parity=0, flags=None, extra=None):
        """Substitution for one context: iteration parity and constant flags.

        flags: {param name: int}; extra literal decisions as a function.
        """
        flags = flags or {}
        amap = {terms.atom(("p", k)): P(v) for k, v in flags.items()}
        k = A("p", "_iter")
        tl = self.tloop
        step = tl.step
        tdef = None
        if tl.lo is not None and tl.var is not None:
            tdef = tl.lo + k * P(step)
        mu_init = {}
        rot = tl.mu["rot"]
        for b, v in tl.mu["init"].items():
            mu_init[b] = v
        ik = terms.atom(("p", "_iter"))

        def lit(b):
            if b[0] == "eq":
                p = b[1]
                s = p.single() or (-p).single()
                if s is not None and akey(s)[0] == "mod" and akey(s)[2] == P(2):
                    q = akey(s)[1]
                    if self.tvar in q.atoms() and tdef is not None and \
                            all(akey(a)[0] in ("p", "lv") for a in q.atoms()):
                        q = Subst(amap={self.tvar: tdef}).poly(q)
                        q = imod(q, P(2))
                        s2 = q.single()
                        if s2 is not None and akey(s2)[0] == "mod":
                            q = akey(s2)[1]
                        r = q.lin(ik)
                        if r is not None and r[1].const() is not None and r[0].const() is not None:
                            v = (r[0].const() * parity + r[1].const()) % 2
                            return v == 0
                        if q.const() is not None:
                            return int(q.const()) % 2 == 0
            if extra is not None:
                return extra(b)
            return None

        def base(b):
            if isinstance(b, tuple) and b in mu_init:
                x = b
                for _ in range(parity):
                    x = rot.get(x, x)
                v = mu_init.get(x)
                if isinstance(v, Ptr) and v.off == ZERO:
                    return v.base
            return None
        return Subst(amap=amap, lit=lit, base=base)

    # ------------------------------------------------------------- writes
    def step_writes(self, sub):
        """Grid writes and indirect writes of one time step in this context."""
        grid, other = [], []
        for order, e in enumerate(self._top(self.tloop.body)):
            for w in flat([e]):
                pc = sub.b(w.pc)
                if pc == F:
                    continue
                base = sub.bs(w.base)
                idx = sub.poly(w.idx)
                val = sub.poly(w.val) if isinstance(w.val, Poly) else w.val
                wi = self.decode_write(w, base, idx, val, pc)
                wi.order = order
                wi.sweep = e
                if cabs._indirect(idx) or not wi.dom:
                    other.append(wi)
                else:
                    grid.append(wi)
        return grid, other

    def _top(self, body):
        return body

    def space_vars(self, w):
        """Loop atoms that run over the grid for a write: {atom: (lo, hi)}."""
        out = {}
        for l in w.loops:
            if l is self.tloop or l.kind == "launch" or l.var is None:
                if l.kind == "launch":
                    gid = None
                    for d in "xyz":
                        pass
                continue
            out[l.var] = (l.lo, l.hi, l.step)
        for a in set(w.idx.atoms()) | _pc_atoms(w.pc):
            k = akey(a)
            if k[0] == "lv" and k[1][0] == "G" and a not in out:
                out[a] = (ZERO, None, Fraction(1))
        return out

    def decode_write(self, w, base, idx, val, pc):
        wi = WInfo()
        wi.w = w
        sv = self.space_vars(w)
        # the shot variable: coefficient n_grid_points or bounded by n_shots
        ns = A("p", "n_shots")
        shot = None
        ng = ngrid(self.ndim)
        for a in sv:
            r = idx.lin(a)
            if r is not None and r[0] == ng:
                shot = a
        for a, (lo, hi, st) in sv.items():
            if shot is None and hi == ns:
                shot = a
        if shot is None:
            for l in (pc[1] if pc[0] == "and" else [pc]):
                for a in sv:
                    if _is_ub(l, a, ns):
                        shot = a
        amap = {}
        if shot is not None:
            amap[shot] = A("lv", "SHOT")
            sv = {a: v for a, v in sv.items() if a != shot}
        # loops over sources or receivers do not run over the grid
        lits = pc[1] if pc[0] == "and" else [pc]
        for a in list(sv):
            if _is_count(sv[a][1]) or any(_is_count(_ub(l, a)) for l in lits):
                del sv[a]
        dec = decode(idx, self.ndim, set(sv))
        wi.shot = shot
        if dec is None:
            wi.dims = {}
            wi.rest = idx
            wi.dom = {}
            wi.val, wi.pc, wi.base = val, pc, base
            return wi
        dom = {}
        for d, (a, c) in dec["dims"].items():
            X = A("lv", d.upper())
            amap[a] = X - c
            lo, hi, st = sv[a]
            dom[d] = [lo + c if lo is not None else None, hi + c if hi is not None else None, st]
        amap[self.tvar] = self.tnow if self.tvar is not None else ZERO
        s = Subst(amap=amap)
        wi.dims = dec["dims"]
        wi.rest = s.poly(dec["rest"])
        wi.val = s.poly(val) if isinstance(val, Poly) else val
        wi.pc = s.b(pc)
        wi.base = base
        for d, v in dom.items():
            # bounds may themselves depend on nothing but parameters
            pass
        # bounds from the guard (CUDA threads)
        lits = wi.pc[1] if wi.pc[0] == "and" else [wi.pc]
        keep = []
        for l in lits:
            hit = False
            for d in dom:
                X = terms.atom(("lv", d.upper()))
                ub = _ub(l, X)
                if ub is not None and dom[d][1] is None:
                    dom[d][1] = ub
                    hit = True
                    break
            if not hit:
                keep.append(l)
        # remaining upper bounds on the same variable stay in the guard
        wi.pc = b_and(*keep) if keep else T
        wi.dom = dom
        return wi


def _is_count(p):
    """p is a per-shot number of sources or receivers."""
    a = p.single() if isinstance(p, Poly) else None
    return a is not None and akey(a)[0] == "p" and \
        akey(a)[1].startswith(("n_source", "n_receiver"))


def _pc_atoms(b):
    if b[0] in ("lt", "eq"):
        return b[1].atoms()
    if b[0] == "not":
        return _pc_atoms(b[1])
    if b[0] in ("and", "or"):
        s = set()
        for x in b[1]:
            s |= _pc_atoms(x)
        return s
    return set()


def _b_has(b, a):
    return a in _pc_atoms(b)


def _ub(l, a):
    """l means  a < bound : return bound."""
    neg = False
    if l[0] == "not":
        neg = True
        l = l[1]
    if l[0] != "lt":
        return None
    r = l[1].lin(a)
    if r is None:
        return None
    c = r[0].const()
    if not neg and c == 1:
        return -r[1]
    if neg and c == -1:
        return r[1] + 1
    return None


def _lb(l, a):
    """l means  a >= bound : return bound."""
    neg = False
    if l[0] == "not":
        neg = True
        l = l[1]
    if l[0] != "lt":
        return None
    r = l[1].lin(a)
    if r is None:
        return None
    c = r[0].const()
    if neg and c == 1:
        return -r[1]
    if not neg and c == -1:
        return r[1] + 1
    return None


def _is_ub(l, a, bound):
    u = _ub(l, a)
    return u is not None and u == bound


def thresholds(b, X, out):
    """Breakpoints of literals that compare X."""
    if b[0] == "not":
        thresholds(b[1], X, out)
    elif b[0] in ("and", "or"):
        for x in b[1]:
            thresholds(x, X, out)
    elif b[0] == "lt":
        r = b[1].lin(X)
        if r is not None and r[0].const() in (1, -1):
            out.add(-r[1] if r[0].const() == 1 else r[1] + 1)
    elif b[0] == "eq":
        r = b[1].lin(X)
        if r is not None and r[0].const() in (1, -1):
            v = -r[1] if r[0].const() == 1 else r[1]
            out.add(v)
            out.add(v + 1)


def val_thresholds(p, X, out, seen):
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        k = akey(a)
        if k[0] == "ite":
            thresholds(k[1], X, out)
            val_thresholds(k[2], X, out, seen)
            val_thresholds(k[3], X, out, seen)
        elif k[0] == "rd":
            val_thresholds(k[2], X, out, seen)
        elif k[0] == "bool":
            thresholds(k[1], X, out)


def order_points(points, facts):
    """Sort breakpoints with the difference bounds; None if not totally ordered."""
    pts = []
    for p in points:
        placed = False
        for q in pts:
            if facts.le(p, q) and facts.le(q, p):
                placed = True
                break
        if not placed:
            pts.append(p)
    out = []
    for p in pts:
        i = 0
        while i < len(out) and facts.le(out[i], p):
            i += 1
        if i < len(out) and not facts.le(p, out[i]):
            return None, (p, out[i])
        for q in out[i:]:
            if not facts.le(p, q):
                return None, (p, q)
        out.insert(i, p)
    return out, None


class StepTable:
    """Per-cell values of one time step."""

    def __init__(self, kernel, parity=0, flags=None, cuts=None, fields=None):
        self.k = kernel
        self.facts = kernel.facts
        self.parity = parity
        sub = kernel.subst(parity, flags)
        self.sub = sub
        self.grid, self.other = kernel.step_writes(sub)
        if fields is not None:
            self.grid = [w for w in self.grid if fields(w)]
        self.cuts = cuts or self.find_cuts()
        self.problems = []
        self._cell = {}

    def find_cuts(self):
        cuts = {}
        for d in self.k.dims:
            X = terms.atom(("lv", d.upper()))
            pts = set()
            seen = set()
            for w in self.grid:
                if d in w.dom:
                    lo, hi, st = w.dom[d]
                    if lo is not None:
                        pts.add(lo)
                    if hi is not None:
                        pts.add(hi)
                thresholds(w.pc, X, pts)
                if isinstance(w.val, Poly):
                    val_thresholds(w.val, X, pts, seen)
            cuts[d] = pts
        return cuts

    def cells(self, cuts=None):
        cuts = cuts or self.cuts
        per = []
        for d in self.k.dims:
            o, bad = order_points(cuts[d], self.facts)
            if o is None:
                raise StepError("%s: grid partition bounds %s and %s of dimension %s are not ordered" % (
                    self.k.name, show(bad[0]), show(bad[1]), d))
            per.append([(d, o[i], o[i + 1]) for i in range(len(o) - 1)])
        return itertools.product(*per)

    def entail(self, cell):
        dom = {terms.atom(("lv", d.upper())): (lo, hi) for d, lo, hi in cell}
        facts = self.facts
        memo = {}

        def lit(b):
            if b in memo:
                return memo[b]
            r = None
            if b[0] == "lt":
                for X, (lo, hi) in dom.items():
                    l = b[1].lin(X)
                    if l is None or l[0].const() not in (1, -1):
                        continue
                    rest = l[1]
                    if any(y in rest.atoms() for y in dom):
                        continue
                    if l[0].const() == 1:
                        # X < -rest
                        if facts.le(hi, -rest):
                            r = True
                        elif facts.le(-rest, lo):
                            r = False
                    else:
                        # X > rest  (X >= rest+1)
                        if facts.le(rest + 1, lo):
                            r = True
                        elif facts.le(hi, rest + 1):
                            r = False
                if r is None and not (b[1].atoms() & set(dom)):
                    if facts.le(b[1] + 1, ZERO):
                        r = True
                    elif facts.le(ZERO, b[1]):
                        r = False
            elif b[0] == "eq":
                for X, (lo, hi) in dom.items():
                    l = b[1].lin(X)
                    if l is None or l[0].const() not in (1, -1):
                        continue
                    v = -l[1] if l[0].const() == 1 else l[1]
                    if facts.le(hi, v) or facts.le(v + 1, lo):
                        r = False
                    elif facts.le(hi, lo + 1) and facts.le(lo, v) and facts.le(v, lo):
                        r = True
            memo[b] = r
            return r
        return Subst(lit=lit)

    def contains(self, w, cell):
        """True/False/None: does the write's domain cover the cell."""
        r = True
        for d, lo, hi in cell:
            if d not in w.dom:
                continue
            wl, wh, st = w.dom[d]
            if wl is None or wh is None:
                return None
            if self.facts.le(wl, lo) and self.facts.le(hi, wh):
                continue
            if self.facts.le(wh, lo) or self.facts.le(hi, wl):
                return False
            r = None
        return r

    def cell(self, cell):
        """{(base, rest): [(value, guard, WInfo)]} for one cell."""
        es = self.entail(cell)
        out = {}
        for w in self.grid:
            c = self.contains(w, cell)
            if c is False:
                continue
            pc = es.b(w.pc)
            if pc == F:
                continue
            if c is None:
                self.problems.append((w, cell, "the loop bounds cut through a region"))
                continue
            v = es.poly(w.val) if isinstance(w.val, Poly) else w.val
            out.setdefault((w.base, es.poly(w.rest)), []).append((v, pc, w))
        return out


# ------------------------------------------------------------ decoded reads
def Decoder(ndim):
    """Substitution that rewrites reads into ('f', base, offsets, rest, tags).

    offsets is a tuple over the dimensions of the array: each entry is the
    integer offset, or None where the array does not vary.
    """
    dims = dims_of(ndim)
    X = {terms.atom(("lv", d.upper())): d for d in dims}
    xs = set(X)

    def rd(k):
        base, idx, tags = k[1], k[2], k[3] if len(k) > 3 else frozenset()
        dec = decode(idx, ndim, xs)
        if dec is None:
            return None
        seen = {}
        for d, (a, c) in dec["dims"].items():
            if X[a] != d:
                # a line array along another dimension: idx = Z + c
                if len(dec["dims"]) == 1 and d == "x":
                    seen[X[a]] = c
                    continue
                return None
            seen[d] = c
        offs = []
        for d in dims:
            if d in seen:
                c = seen[d].const()
                if c is None:
                    return None
                offs.append(int(c))
            else:
                offs.append(None)
        return A("f", base, tuple(offs), dec["rest"], tags)
    return Subst(rd=rd)


def field_atoms(p, ndim):
    return Decoder(ndim).poly(p)


def shift(p, offs, ndim):
    """Value of p at the point moved by offs (only 'f' atoms)."""
    if not any(offs):
        return p
    amap = {}
    for a in _all_f(p):
        k = akey(a)
        o = tuple(None if x is None else x + d for x, d in zip(k[2], offs))
        amap[a] = A("f", k[1], o, k[3], k[4])
    return Subst(amap=amap).poly(p)


def _all_f(p):
    out = set()
    for a in p.atoms():
        k = akey(a)
        if k[0] == "f":
            out.add(a)
        elif k[0] == "ite":
            out |= _all_f(k[2]) | _all_f(k[3])
        elif k[0] in ("idiv", "mod", "max", "inv"):
            for x in k[1:]:
                out |= _all_f(x)
    return out


def base_name(b):
    if isinstance(b, tuple) and b[0] == "p":
        return b[1]
    return base_show(b)
