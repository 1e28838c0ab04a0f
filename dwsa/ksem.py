"""Decoded per-cell semantics of one propagator entry point.

Sits on top of ksum.StepTable: canonical parameter roles, contexts of constant
flags, values rewritten to field atoms ('f', name, offsets, rest, tags), and
the split into wavefields / gradient accumulators / stored snapshots /
source-receiver transfers.
"""
import json
import os
import re

from . import cfront, terms, ksum
from .cfront import FrontError
from .ksum import StepError, dims_of, ngrid
from .terms import *
from .terms import key as akey

HERE = os.path.dirname(os.path.abspath(__file__))
ROLES = json.load(open(os.path.join(HERE, "data", "roles.json")))
PROPS = ("scalar", "scalar_born", "acoustic", "elastic")
PASSES = {"scalar": ("forward", "backward"),
          "scalar_born": ("forward", "backward", "backward_sc"),
          "acoustic": ("forward", "backward"),
          "elastic": ("forward", "backward")}
ACCS = (2, 4, 6, 8)
NDIMS = (1, 2, 3)


def source_file(prop, device):
    return "src/deepwave/" + prop + (".cu" if device == "cuda" else ".c")


def canon_names(prop, ndim, pas, params):
    """{actual parameter name: role}.  By name where it is known, the rest by order."""
    roles = ROLES["%s/%d/%s" % (prop, ndim, pas)]
    out = {}
    left = []
    rs = set(roles)
    for p in params:
        q = p
        if q not in rs and q.endswith("_h"):
            q = q[:-2]
        q = re.sub(r"_store_1a$", "_store_1", q)
        if q not in rs and re.match(r"grad_.*_shot$", q):
            q = q[:-5] + "_thread"
        if q in rs and q not in out.values():
            out[p] = q
        else:
            left.append(p)
    free = [r for r in roles if r not in out.values()]
    if left and len(params) >= len(roles) - 1 and len(left) >= len(free):
        # unknown names take the unclaimed roles, position first
        for p in list(left):
            i = params.index(p)
            if i < len(roles) and roles[i] in free:
                out[p] = roles[i]
                free.remove(roles[i])
                left.remove(p)
        for p, r in zip(left, free):
            out[p] = r
    return out


_K = {}


def kernel(prop, ndim, acc, pas, device="cpu", dtype="float"):
    kk = (prop, ndim, acc, pas, device, dtype)
    if kk not in _K:
        f = prop + (".cu" if device == "cuda" else ".c")
        tu = cfront.parse(f, ndim, acc, dtype)
        name = "%s_iso_%dd_%d_%s_%s_%s" % (prop, ndim, acc, dtype, pas, device)
        if name not in tu.funcs:
            raise FrontError("%s: entry point %s is missing" % (f, name))
        ps = [p[0] for p in tu.funcs[name].params]
        ren = canon_names(prop, ndim, pas, ps)
        ren = {a: b for a, b in ren.items() if a != b}
        _K[kk] = ksum.Kernel(prop, ndim, acc, pas, device, dtype, rename=ren)
    return _K[kk]


def flag_names(k):
    roles = ROLES["%s/%d/%s" % (k.prop, k.ndim, k.pas)]
    return [r for r in roles if r.endswith(("_requires_grad", "_batched"))]


def contexts(k, deep=False):
    """Constant-flag contexts: all off, all on, and each batched flag alone."""
    fl = flag_names(k)
    base = {"storage_mode": 0, "storage_compression": 0}
    out = []
    req = {f: 1 for f in fl if f.endswith("_requires_grad")}
    bat = [f for f in fl if f.endswith("_batched")]
    out.append(dict(base, **req, **{b: 0 for b in bat}))
    out.append(dict(base, **req, **{b: 1 for b in bat}))
    if deep and len(bat) > 1:
        for b in bat:
            out.append(dict(base, **req, **{c: int(c == b) for c in bat}))
    if deep and len(req) > 1:
        for r in req:
            out.append(dict(base, **{c: int(c == r) for c in req}, **{b: 0 for b in bat}))
    return out


def cls(name):
    if name.startswith("grad_") and not name.startswith(("grad_f", "grad_r")):
        return "grad"
    if "_store_" in name:
        return "store"
    return "field"


DPML = re.compile(r"^(?:a|b|db)([xyz])(?:h|d[xyz])?$")


def pml_dim(name):
    m = DPML.match(name)
    return m.group(1) if m else None


class Ctx:
    """Decoded step of one kernel in one flag context and iteration parity."""

    def __init__(self, k, flags, parity=0, cuts=None):
        self.k = k
        self.flags = flags
        self.ndim = k.ndim
        self.dims = k.dims
        self.tab = ksum.StepTable(k, parity, flags, cuts=cuts)
        self.shot = A("lv", "SHOT") * ngrid(k.ndim)
        self._cells = None
        self.dec = ksum.Decoder(k.ndim)

    def where(self, line):
        return "%s:%d" % (source_file(self.k.prop, self.k.device), line)

    def cells(self):
        if self._cells is None:
            out = []
            ncut = {}
            for d in self.dims:
                o, bad = ksum.order_points(self.tab.cuts[d], self.tab.facts)
                if o is None:
                    raise StepError("%s: grid partition bounds %s and %s of dimension %s are not ordered" % (
                        self.k.name, show(bad[0]), show(bad[1]), d))
                ncut[d] = o
            import itertools
            self.order = ncut
            for c in itertools.product(*[range(len(ncut[d]) - 1) for d in self.dims]):
                cell = tuple((d, ncut[d][i], ncut[d][i + 1]) for d, i in zip(self.dims, c))
                out.append((c, cell))
            self._cells = out
        return self._cells

    def table(self, cell):
        """{name: [(value, guard, winfo, rest)]}"""
        out = {}
        for (base, rest), lst in self.tab.cell(cell).items():
            name = ksum.base_name(base)
            for v, g, w in lst:
                out.setdefault(name, []).append((self.dec.poly(v), g, w, rest))
        return out


def show_cell(cell):
    return " x ".join("%s in [%s, %s)" % (d, show(lo), show(hi)) for d, lo, hi in cell)


def fkey(a):
    k = akey(a)
    return k if k[0] == "f" else None


def fname(k):
    return ksum.base_name(k[1])


def zero_fields(p, pred):
    """p with every field atom selected by pred(name, key) set to zero."""
    amap = {}
    for a in ksum._all_f(p):
        k = akey(a)
        if pred(fname(k), k):
            amap[a] = ZERO
    return Subst(amap=amap).poly(p) if amap else p


# ------------------------------------------------------------- transfers
class Transfer:
    """Injection into / recording from fields at listed locations.

    fields: [(array name, coefficient)]; an injection has exactly one.
    """
    __slots__ = ("kind", "fields", "amp", "loc", "order", "line", "count", "problem", "w", "guard", "locidx")

    @property
    def field(self):
        return self.fields[0][0] if self.fields else None


def transfers(ctx):
    """Decode every indirect or per-source write of the step."""
    out = []
    k = ctx.k
    SH = A("lv", "SHOT")
    T_ = A("lv", "T")
    for w in ctx.tab.other:
        t = Transfer()
        t.order, t.line, t.w, t.problem = w.order, w.w.line, w, None
        t.kind = t.amp = t.loc = t.count = None
        t.fields = []
        t.guard = w.pc
        # the loop atom over sources / receivers
        ivars = [a for a in _loop_atoms(w) if akey(a)[1] != "SHOT"]
        out.append(t)
        name = ksum.base_name(w.base)
        if not isinstance(w.val, Poly):
            t.problem = "writes a non-numeric value"
            continue
        ind = [a for a in w.rest.atoms() if akey(a)[0] == "rd"]
        if ind:
            t.kind = "inject"
            t.fields = [(name, ONE)]
            if len(ind) != 1 or w.rest != ctx.shot + Poly({((ind[0], 1),): Fraction(1)}):
                t.problem = "index %s is not shot offset + one location" % show(w.rest)
                continue
            lk = akey(ind[0])
            t.loc = ksum.base_name(lk[1])
            own = None
            amp = []
            for mono, co in w.val.m.items():
                rds = [(a, e) for a, e in mono if akey(a)[0] == "rd"]
                if len(rds) == 1 and rds[0][1] == 1:
                    rk = akey(rds[0][0])
                    if rk[1] == w.base and rk[2] == w.rest:
                        own = (mono, co)
                        continue
                amp.append((mono, co))
            if own is None or len(own[0]) != 1 or own[1] != 1:
                t.problem = "injection does not accumulate onto the field value"
                continue
            if len(amp) != 1:
                t.problem = "injection adds %s" % show(w.val)
                continue
            mono, co = amp[0]
            rds = [a for a, e in mono if akey(a)[0] == "rd" and e == 1]
            amps = []
            for a in rds:
                r = _amp_index(akey(a), lk)
                if r is not None:
                    amps.append((a, r))
            if len(amps) != 1:
                t.problem = "no amplitude indexed [time][shot][source] in %s" % show(w.val)
                continue
            a, cnt = amps[0]
            t.amp = ksum.base_name(akey(a)[1])
            t.count = cnt
            t.fields = [(name, Poly({tuple(x for x in mono if x[0] != a): co}))]
        else:
            t.kind = "record"
            t.amp = name
            v = w.val
            lk = None
            for mono, co in v.m.items():
                src = [a for a, e in mono if akey(a)[0] == "rd" and e == 1 and
                       any(akey(x)[0] == "rd" for x in akey(a)[2].atoms())]
                if len(src) != 1:
                    t.problem = "records %s" % show(v)
                    break
                sk = akey(src[0])
                locs = [a for a in sk[2].atoms() if akey(a)[0] == "rd"]
                if len(locs) != 1 or sk[2] != ctx.shot + Poly({((locs[0], 1),): Fraction(1)}):
                    t.problem = "reads index %s" % show(sk[2])
                    break
                lk1 = akey(locs[0])
                if lk is not None and lk1 != lk:
                    t.problem = "mixes two location lists"
                    break
                lk = lk1
                t.fields.append((ksum.base_name(sk[1]),
                                 Poly({tuple(x for x in mono if x[0] != src[0]): co})))
            if t.problem:
                continue
            if lk is None:
                t.problem = "records %s" % show(v)
                continue
            t.loc = ksum.base_name(lk[1])
            t.count = _amp_index(("rd", w.base, w.rest), lk)
            if t.count is None:
                t.problem = "output index %s is not [time][shot][receiver]" % show(w.rest)
                continue
        # location list index: i + count*SHOT
        li = lk[2]
        r = li - t.count * SH
        s = r.single()
        if s is None or akey(s)[0] not in ("lv",):
            t.problem = "location list index is %s" % show(li)
    return out


def _loop_atoms(w):
    out = set()
    for a in w.rest.atoms():
        k = akey(a)
        if k[0] == "lv":
            out.add(a)
        elif k[0] == "rd":
            for b in k[2].atoms():
                if akey(b)[0] == "lv":
                    out.add(b)
    return out


def _amp_index(rk, lk):
    """count if rk is indexed  i + count*SHOT + count*n_shots*T  with lk's i."""
    SH, T_, NS = A("lv", "SHOT"), A("lv", "T"), A("p", "n_shots")
    li = lk[2]
    ivs = [a for a in li.atoms() if akey(a)[0] == "lv" and akey(a)[1] not in ("SHOT", "T")]
    if len(ivs) != 1:
        return None
    i = Poly({((ivs[0], 1),): Fraction(1)})
    rest = rk[2] - i
    r = rest.lin(terms.atom(("lv", "T")))
    if r is None:
        return None
    ct = r[0]
    r2 = r[1].lin(terms.atom(("lv", "SHOT")))
    if r2 is None or r2[1] != ZERO:
        return None
    n = r2[0]
    s = n.single()
    if s is None or ct != n * NS:
        return None
    return n


# ---------------------------------------------------------------- SSA form
class Ev:
    __slots__ = ("kind", "name", "ver", "val", "order", "line", "guard", "tr", "rest", "w")


class Program:
    """The step on the all-absorbing cell as an ordered straight-line program.

    Every array version is an atom ('v', name, version, offsets, rest); the
    values of the grid writes are polynomials over those atoms.
    """

    def __init__(self, ctx, cell=None):
        self.ctx = ctx
        k = ctx.k
        idx, c0 = ctx.cells()[0]
        self.cell = cell or c0
        tb = ctx.table(self.cell)
        evs = []
        for name, lst in tb.items():
            for n, (v, g, w, rest) in enumerate(lst):
                e = Ev()
                e.kind, e.name, e.val, e.order, e.line, e.guard, e.rest, e.w = \
                    "grid", name, v, w.order, w.w.line, g, rest, w
                e.tr = None
                evs.append(e)
        self.transfers = transfers(ctx)
        for t in self.transfers:
            e = Ev()
            e.kind, e.name, e.val, e.order, e.line, e.guard, e.rest, e.w = \
                t.kind, t.field if t.kind == "inject" else t.amp, None, t.order, t.line, t.guard, None, t.w
            e.tr = t
            evs.append(e)
        evs.sort(key=lambda e: e.order)
        # versions
        writes = {}
        for e in evs:
            if e.kind in ("grid", "inject"):
                writes.setdefault(e.name, []).append(e.order)
        ver = {}
        for e in evs:
            if e.kind in ("grid", "inject"):
                ver[e.name] = ver.get(e.name, 0) + 1
                e.ver = ver[e.name]
            else:
                e.ver = None
        self.final = ver
        self.evs = evs
        # version of a read at order o: writes strictly before in order
        for e in evs:
            if e.kind == "grid":
                amap = {}
                for a in ksum._all_f(e.val):
                    kk = akey(a)
                    nm = fname(kk)
                    amap[a] = A("v", nm, self.version_at(nm, e.order), kk[2], kk[3])
                e.val = Subst(amap=amap).poly(e.val)
            elif e.tr is not None and e.tr.problem is None:
                e.val = [self.version_at(f, e.order) for f, c in e.tr.fields]

    def version_at(self, name, order):
        return sum(1 for e in self.evs if e.kind in ("grid", "inject") and e.name == name and e.order < order)


def rotation(k, flags):
    """{buffer: buffer} taking the roles of one iteration to the next."""
    s0 = k.subst(0, flags)
    s1 = k.subst(1, flags)
    pairs = {}
    bad = []

    def use(raw, line):
        a, b = s0.bs(raw), s1.bs(raw)
        na, nb = ksum.base_name(a), ksum.base_name(b)
        if isinstance(a, tuple) and a[0] == "p" and isinstance(b, tuple) and b[0] == "p":
            if pairs.setdefault(na, (nb, line))[0] != nb:
                bad.append((na, pairs[na][0], nb, line))
        elif isinstance(a, tuple) and a[0] == "ite" and _undecided(a[1]):
            bad.append((na, _first(a), "one chosen when %s" % bshow(a[1]), line))
    for w in terms_flat(k.tloop.body):
        if s0.b(w.pc) == F:
            continue
        use(w.base, w.line)
        if isinstance(w.val, Poly):
            for b in read_bases(w.val):
                use(b, w.line)
    return {a: b for a, (b, l) in pairs.items()}, bad


def _undecided(b):
    """A condition on the time step that its position in the chunk does not settle."""
    for a in ksum._pc_atoms(b):
        k = akey(a)
        if k[0] in ("mod", "idiv") and any(akey(x)[0] == "lv" for x in k[1].atoms()):
            return True
    return False


def _first(b):
    while isinstance(b, tuple) and b[0] == "ite":
        b = b[2]
    return ksum.base_name(b)


def terms_flat(body):
    from .cabs import flat
    return flat(body)


def read_bases(p, seen=None):
    out = set()
    seen = seen if seen is not None else set()
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        k = akey(a)
        if k[0] == "rd":
            out.add(k[1])
            out |= read_bases(k[2], seen)
        elif k[0] == "ite":
            out |= read_bases(k[2], seen) | read_bases(k[3], seen)
        elif k[0] in ("idiv", "mod", "max", "inv"):
            for x in k[1:]:
                out |= read_bases(x, seen)
    return out


def vshift(p, offs):
    if not any(offs):
        return p
    amap = {}
    for a in p.atoms():
        k = akey(a)
        if k[0] == "v":
            amap[a] = A("v", k[1], k[2], tuple(None if x is None else x + d for x, d in zip(k[3], offs)), k[4])
    return Subst(amap=amap).poly(p)


class Linear:
    """The step as a linear map: out name -> polynomial over version-0 atoms."""

    def __init__(self, prog, rot, models=()):
        self.prog = prog
        ctx = prog.ctx
        nd = ctx.ndim
        self.zero = (0,) * nd
        self.shot = ctx.shot
        self.env = {}
        self.out = {}
        self.cache = {}
        for e in prog.evs:
            if e.kind == "grid":
                if cls(e.name) != "field":
                    continue
                self.env[(e.name, e.ver)] = self.expand(e.val)
            elif e.kind == "inject":
                prev = self.at(e.name, e.ver - 1, self.zero)
                amp = A("v", e.tr.amp + "@" + e.tr.loc, 0, self.zero, self.shot)
                self.env[(e.name, e.ver)] = prev + e.tr.fields[0][1] * amp
            elif e.kind == "record":
                tot = ZERO
                for (f, co), v in zip(e.tr.fields, e.val):
                    tot = tot + self.at(f, v, self.zero) * co
                key = e.tr.amp + "@" + e.tr.loc
                self.out[key] = self.out.get(key, ZERO) + tot
        # next state
        st = set()
        for p in list(self.env.values()) + list(self.out.values()):
            for a in p.atoms():
                k = akey(a)
                if k[0] == "v" and k[4] == self.shot and "@" not in k[1] and k[1] not in models:
                    st.add(k[1])
        self.state = st
        self.next = {}
        for n in st:
            b = rot.get(n, n)
            self.next[n] = self.at(b, prog.final.get(b, 0), self.zero)

    def at(self, name, ver, offs):
        if ver == 0:
            return A("v", name, 0, tuple(offs), self.shot)
        key = (name, ver, tuple(offs))
        if key not in self.cache:
            self.cache[key] = vshift(self.env[(name, ver)], offs)
        return self.cache[key]

    def expand(self, p):
        amap = {}
        for a in p.atoms():
            k = akey(a)
            if k[0] == "v" and k[2] > 0:
                amap[a] = self.at(k[1], k[2], k[3])
        return Subst(amap=amap).poly(p) if amap else p

    def rows(self):
        r = dict(self.next)
        r.update(self.out)
        return r


def transpose(rows, is_state, names, nd):
    """Adjoint rows: {in name: polynomial over the adjoint atoms of out names}."""
    out = {}
    for n, p in rows.items():
        for mono, co in p.m.items():
            sv = [(a, e) for a, e in mono if is_state(a)]
            if len(sv) != 1 or sv[0][1] != 1:
                raise StepError("step is not linear in the wavefields: %s" % show(Poly({mono: co})))
            k = akey(sv[0][0])
            o = k[3]
            coef = Poly({tuple(x for x in mono if x != sv[0]): co})
            no = tuple(-x for x in o)
            out.setdefault(k[1], []).append((n, no, vshift(coef, no)))
    return out
