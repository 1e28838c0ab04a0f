"""Rules over the decoded time step of the compiled propagators."""
import re

from . import cabs, ksem, kspec, ksum, terms
from .cfront import FrontError
from .ksem import Ctx, Linear, Program, cls, fname, kernel, pml_dim, rotation, show_cell, source_file
from .ksum import StepError, ngrid
from .terms import *
from .terms import key as akey

SIGN = {"wfp": -1, "wfpsc": -1}     # the second-order adjoint buffer carries minus the previous level

GRADMAP = {
    "acoustic": {"k": "grad_k", "buoyancy_z": "grad_bz", "buoyancy_y": "grad_by", "buoyancy_x": "grad_bx"},
}


class Unit:
    """One kernel in one flag context, with lazily built forms."""

    def __init__(self, prop, ndim, acc, pas, device="cpu", dtype="float", ctxi=0):
        self.k = kernel(prop, ndim, acc, pas, device, dtype)
        cs = ksem.contexts(self.k, deep=True)
        self.flags = cs[min(ctxi, len(cs) - 1)]
        self.ctx = Ctx(self.k, self.flags)
        self._prog = {}
        self._lin = None
        self._rot = None
        self._lines = {}
        self.file = source_file(prop, device)
        self.id = "%s(%dd,acc%d,%s)" % (self.k.name, ndim, acc, dtype)
        self.name = "%s/%s/%dd/%s" % (prop, pas, ndim, device)

    @property
    def prog(self):
        return self.program()

    def program(self, cell=None):
        if cell not in self._prog:
            self._prog[cell] = Program(self.ctx, cell)
        return self._prog[cell]

    @property
    def rot(self):
        if self._rot is None:
            self._rot = rotation(self.k, self.flags)[0]
        return self._rot

    @property
    def lin(self):
        if self._lin is None:
            for t in self.prog.transfers:
                if t.problem:
                    raise StepError("%s:%d: %s" % (self.file, t.line, t.problem))
            self._lin = Linear(self.prog, self.rot, MODELS[self.k.prop])
        return self._lin

    def line_of(self, name):
        if name not in self._lines:
            self._lines[name] = self._line_of(name)
        return self._lines[name]

    def _line_of(self, name):
        r = self.rot.get(name, name)
        for n in (name, r):
            for e in self.prog.evs:
                if e.name == n:
                    return "%s:%d" % (self.file, e.line)
        n = name.split("@")[0]
        for e in self.prog.evs:
            if e.name == n:
                return "%s:%d" % (self.file, e.line)
        return "%s:%d" % (self.file, self.k.fn.line)


def diffshow(a, b):
    if a is None:
        return "missing"
    if b is None:
        return "unexpected"
    d = a - b
    n = len(d.m)
    return "%d differing terms: code minus rule = %s" % (n, pshow(d, 260))


def pshow(p, limit=300):
    old = terms.ashow

    def ash(i):
        k = akey(i)
        if k[0] in ("v", "f"):
            offs = k[3] if k[0] == "v" else k[2]
            nm = k[1] if k[0] == "v" else ksum.base_name(k[1])
            return "%s%s" % (nm, "" if not any(offs) else "[" + ",".join(
                "." if o is None else "%+d" % o for o in offs) + "]")
        return old(i)
    terms.ashow = ash
    try:
        return show(p, limit)
    finally:
        terms.ashow = old


# ------------------------------------------------------------------ spec rule
def forward_spec(rep, prop, ndim, acc, device, dtype, ctxi):
    u = Unit(prop, ndim, acc, "forward", device, dtype, ctxi)
    rep.unit(u.id)
    rows = u.lin.rows()
    spec, _ = kspec.SPEC[prop](kspec.B(ndim, acc, u.flags))
    for n in sorted(set(rows) | set(spec)):
        rep.check(rows.get(n) == spec.get(n), "update-equation", u.line_of(n),
                  "%s:%s" % (u.name, n),
                  lambda n=n: "acc %d: the next value of %s is not the documented discretisation: %s" % (
                      acc, n, diffshow(rows.get(n), spec.get(n))))


# ---------------------------------------------------------------- adjoint rule
def model_alias(p, prop):
    if prop != "scalar":
        return p
    am = {}
    for a in p.atoms():
        k = akey(a)
        if k[0] == "v" and k[1] == "v2dt2":
            v = A("v", "v", 0, k[3], k[4])
            am[a] = v * v * A("p", "dt2")
    return Subst(amap=am).poly(p) if am else p


def is_wave(shot):
    def f(a):
        k = akey(a)
        return k[0] == "v" and k[4] == shot
    return f


def adjoint(rep, prop, ndim, acc, device, dtype, ctxi, pas="backward"):
    f = Unit(prop, ndim, acc, "forward", device, dtype, ctxi)
    b = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(f.id)
    rep.unit(b.id)
    only = None
    frows = f.lin.rows()
    if pas == "backward_sc":
        # the scattered block alone: background fields are not perturbed
        frows = {n: p for n, p in frows.items() if n.split("@")[0].endswith("sc")}
        only = "sc"
    shot = f.ctx.shot
    # with batched models a model read has the same index as a wavefield
    st = f.lin.state | {n for n in frows if "@" in n}
    wave_names = set(f.lin.state)

    def iswave(a):
        k = akey(a)
        return k[0] == "v" and k[4] == shot and (k[1] in wave_names or "@" in k[1]) and k[1] not in MODELS[prop]
    tr = ksem.transpose(frows, iswave, None, ndim)
    brows = {n: model_alias(p, prop) for n, p in b.lin.rows().items()}
    want = {}
    for m, lst in tr.items():
        if only and not m.split("@")[0].endswith(only):
            continue
        exp = ZERO
        for n, o, co in lst:
            n2 = ("grad_" + n) if "@" in n else n
            exp = exp + co * A("v", n2, 0, o, shot) * P(SIGN.get(n, 1))
        want[("grad_" + m) if "@" in m else m] = exp * P(SIGN.get(m, 1))
    names = set(want) | set(brows)
    for n in sorted(names):
        rep.check(brows.get(n) == want.get(n), "adjoint-transpose", b.line_of(n),
                  "%s:%s" % (b.name, n),
                  lambda n=n: "acc %d: the adjoint update of %s is not the transpose of the forward step: %s" % (
                      acc, n, diffshow(brows.get(n), want.get(n))))


MODELS = {
    "scalar": {"v", "v2dt2"}, "scalar_born": {"v", "scatter"},
    "acoustic": {"k", "buoyancy_x", "buoyancy_y", "buoyancy_z"},
    "elastic": {"lamb", "mu", "mu_yx", "mu_zx", "mu_zy", "buoyancy_x", "buoyancy_y", "buoyancy_z"},
}


# --------------------------------------------------------------- gradient rule
def deriv(p, a):
    out = {}
    for mono, co in p.m.items():
        for i, (x, e) in enumerate(mono):
            if x == a:
                m = list(mono)
                if e == 1:
                    del m[i]
                else:
                    m[i] = (x, e - 1)
                m = tuple(m)
                out[m] = out.get(m, 0) + co * e
                break
    return Poly({k: v for k, v in out.items() if v})


def gradients(rep, prop, ndim, acc, device, dtype, ctxi, pas="backward"):
    f = Unit(prop, ndim, acc, "forward", device, dtype, ctxi)
    b = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(f.id)
    rep.unit(b.id)
    shot = f.ctx.shot
    zero = (0,) * ndim
    models = MODELS[prop]
    state = set(f.lin.state)
    rot = f.rot
    brot = b.rot
    # ---- reverse accumulation over the forward step, seeded with the backward state
    # bar[(array, version)] over the backward step's version-0 atoms
    bar = {}

    def seed(n):
        return A("v", n, 0, zero, shot) * P(SIGN.get(n, 1))
    sconly = pas == "backward_sc"
    for n in state:
        if sconly and not n.endswith("sc"):
            continue
        bufn = rot.get(n, n)
        key = (bufn, f.prog.final.get(bufn, 0))
        bar[key] = bar.get(key, ZERO) + seed(n)
    for e in f.prog.evs:
        if e.kind == "record":
            if sconly and not e.tr.amp.endswith("sc"):
                continue
            for (fld, co), v in zip(e.tr.fields, e.val):
                g = A("v", "grad_%s@%s" % (e.tr.amp, e.tr.loc), 0, zero, shot)
                bar[(fld, v)] = bar.get((fld, v), ZERO) + co * g
    want = {}
    for e in reversed(f.prog.evs):
        if e.kind == "inject":
            key = (e.name, e.ver)
            prev = (e.name, e.ver - 1)
            bar[prev] = bar.get(prev, ZERO) + bar.get(key, ZERO)
            continue
        if e.kind != "grid" or cls(e.name) != "field":
            continue
        g = bar.get((e.name, e.ver), ZERO)
        if g == ZERO:
            continue
        for mono, co in e.val.m.items():
            sv = [(a, x) for a, x in mono if akey(a)[0] == "v" and akey(a)[4] == shot and
                  akey(a)[1] not in models]
            if len(sv) != 1 or sv[0][1] != 1:
                raise StepError("%s:%d: update of %s is not linear in the wavefields" % (f.file, e.line, e.name))
            k = akey(sv[0][0])
            no = tuple(-x for x in k[3])
            coef = Poly({tuple(x for x in mono if x != sv[0]): co})
            key = (k[1], k[2])
            bar[key] = bar.get(key, ZERO) + ksem.vshift(coef * g, no)
        for a in sorted(e.val.atoms()):
            k = akey(a)
            if k[0] == "v" and k[1] in models:
                if any(k[3]):
                    raise StepError("%s:%d: model %s read away from the updated point" % (f.file, e.line, k[1]))
                want[k[1]] = want.get(k[1], ZERO) + g * deriv(e.val, a)
    # ---- what the backward pass accumulates
    stores = {}
    sguard = {}
    for e in f.prog.evs:
        if e.kind == "grid" and cls(e.name) == "store":
            stores[e.name] = e
    gm = GRADMAP.get(prop, {})
    ratio = A("p", "step_ratio")
    got = {}
    for e in b.prog.evs:
        if e.kind == "grid" and cls(e.name) == "grad":
            own = A("v", e.name, 0, zero, e.rest)
            inc = e.val - own
            # forward store values in place of the stored snapshots
            am = {}
            for a in inc.atoms():
                k = akey(a)
                if k[0] == "v" and "_store_" in k[1]:
                    se = stores.get(k[1])
                    if se is None:
                        rep.fail("snapshot-source", "%s:%d" % (b.file, e.line), "%s:%s" % (b.name, e.name),
                                 "reads snapshot %s, which the forward pass never writes" % k[1])
                        return
                    rep.check(k[4] == se.rest and not any(k[3]), "snapshot-slot", "%s:%d" % (b.file, e.line),
                              "%s:%s:%s" % (b.name, e.name, k[1]),
                              lambda k=k, se=se: "snapshot read at %s but stored at %s" % (show(k[4]), show(se.rest)))
                    rep.check(_same_guard(se.guard, e.guard), "snapshot-guard", "%s:%d" % (b.file, e.line),
                              "%s:%s:%s" % (b.name, e.name, k[1]),
                              lambda se=se, e=e: "gradient accumulated when %s but snapshot written when %s" % (
                                  bshow(e.guard), bshow(se.guard)))
                    am[a] = se.val
            inc = b.lin.expand(inc)
            inc = Subst(amap=am).poly(inc) if am else inc
            inc = model_alias(inc, prop)
            want_guard = _mod0("step_ratio")
            rep.check(_strip_threads(e.guard) == want_guard, "gradient-sampling",
                      "%s:%d" % (b.file, e.line), "%s:%s" % (b.name, e.name),
                      lambda e=e: "gradient accumulated when %s, expected every step_ratio-th step" % bshow(e.guard))
            got.setdefault(re.sub(r"_thread$", "", e.name), []).append((inc, e))
    pairs = {}
    for m in models:
        gname = gm.get(m, "grad_" + m)
        roles = ksem.ROLES["%s/%d/%s" % (prop, ndim, pas)]
        if gname in roles:
            pairs[m] = gname
    for m, gname in sorted(pairs.items()):
        lst = got.pop(gname, [])
        tot = ZERO
        for inc, e in lst:
            tot = tot + inc
        exp = want.get(m, ZERO) * ratio if b.flags.get(flag_of(prop, m) + "_requires_grad", 1) else ZERO
        line = lst[0][1].line if lst else b.k.fn.line
        rep.check(tot == exp, "model-gradient", "%s:%d" % (b.file, line), "%s:%s" % (b.name, gname),
                  lambda tot=tot, exp=exp, m=m: "acc %d: the accumulated gradient of %s is not the derivative of the "
                  "forward update: %s" % (acc, m, diffshow(tot, exp)))
    for gname, lst in got.items():
        rep.fail("model-gradient", "%s:%d" % (b.file, lst[0][1].line), "%s:%s" % (b.name, gname),
                 "accumulates into %s, which belongs to no model" % gname)


def flag_of(prop, m):
    """The model parameter whose flags govern the array m (or its gradient)."""
    if prop == "acoustic":
        return "k" if m == "k" else "b"
    if prop == "elastic":
        return "mu" if m.startswith("mu") else "buoyancy" if m.startswith("buoy") else m
    return {"v2dt2": "v"}.get(m, m)


def _mod0(name):
    return b_eq0(imod(A("lv", "T"), A("p", name)))


def _strip_threads(g):
    """Guard without thread-range tests (variable below a size)."""
    lits = g[1] if g[0] == "and" else [g]
    keep = []
    for l in lits:
        if l[0] == "lt" and any(akey(a)[0] == "lv" and akey(a)[1] in ("SHOT", "X", "Y", "Z") for a in l[1].atoms()):
            continue
        keep.append(l)
    return b_and(*keep) if keep else T


def _same_guard(a, b):
    return _strip_threads(a) == _strip_threads(b)


# ------------------------------------------------------------- neutrality rule
def interior(cell):
    """(dims where full-grid coefficients vanish, dims where half-grid ones do)."""
    full, half = set(), set()
    for d, lo, hi in cell:
        p0, p1 = A("p", "pml_%s0" % d), A("p", "pml_%s1" % d)
        m = mmax(p0, p1 - 1)
        if lo == p0 and hi in (p1, m):
            full.add(d)
        if lo == m and hi == p1:
            full.add(d)
        if lo == p0 and hi == m:
            half.add(d)
    return full, half


AUX = re.compile(r"^(psi|zeta|phi|m_)")


FINAL = 99          # version number standing for "the value after the whole step"


class Composed:
    __slots__ = ("val", "guards", "line", "rests", "n")


def composed(prog, ref):
    """{array: its value after the step}, own earlier writes substituted.

    Versions of other arrays become 0 (value before the step), FINAL, or the
    number of writes seen so far; arrays not written in this cell take the
    version seen in the reference cell.
    """
    mine = {e.name for e in prog.evs if e.kind == "grid"}

    def canon(p, order):
        am = {}
        for a in p.atoms():
            k = akey(a)
            if k[0] != "v":
                continue
            tot = prog.final.get(k[1])
            v = k[2]
            if k[1] not in mine and k[1] in ref.final:
                tot = ref.final[k[1]]
                v = ref.version_at(k[1], order)
            if v and v == tot:
                am[a] = A("v", k[1], FINAL, k[3], k[4])
            elif v != k[2]:
                am[a] = A("v", k[1], v, k[3], k[4])
        return Subst(amap=am).poly(p) if am else p
    out = {}
    raw = {}
    zero = (0,) * prog.ctx.ndim
    for e in prog.evs:
        if e.kind != "grid":
            if e.kind == "inject":
                raw.pop(e.name, None)
            continue
        v = e.val
        am = {}
        own = raw.get(e.name)
        for a in v.atoms():
            k = akey(a)
            if k[0] == "v" and k[1] == e.name and k[3] == zero and own is not None and k[4] == own[1] and \
                    k[2] == own[2]:
                am[a] = own[0]
        v = canon(Subst(amap=am).poly(v) if am else v, e.order)
        raw[e.name] = (v, e.rest, e.ver)
        c = out.get(e.name)
        if c is None:
            c = out[e.name] = Composed()
            c.guards, c.rests, c.n = [], [], 0
        c.val, c.line = v, e.line
        g = _strip_threads(e.guard)
        if g not in c.guards:
            c.guards.append(g)
        if e.rest not in c.rests:
            c.rests.append(e.rest)
        c.n += 1
    return out


def neutrality(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """Every region uses the absorbing formula with the coefficients of the
    non-absorbing directions set to zero."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    uni = composed(u.prog, u.prog)
    regular = prop in ("scalar", "scalar_born")
    for idx, cell in u.ctx.cells():
        full, half = interior(cell)
        if pas != "forward":
            half = full

        def gone(n):
            d = pml_dim(n)
            if d is None:
                return False
            if regular:
                return d in full
            return d in half if n.endswith("h") else d in full

        def z(p):
            am = {a: ZERO for a in p.atoms() if akey(a)[0] == "v" and gone(akey(a)[1])}
            return Subst(amap=am).poly(p) if am else p
        here = composed(u.program(cell), u.prog)
        for n, us in uni.items():
            h = here.get(n)
            where = "%s:%d" % (u.file, us.line)
            if h is None:
                if _edge(cell, u.k.pad):
                    rep.ok("region-coverage")
                elif AUX.match(n):
                    # untouched memory variable: its update must amount to nothing here
                    v = z(us.val)
                    rep.check(v == ZERO, "absorber-neutral", where, "%s:%s" % (u.name, n),
                              lambda v=v: "acc %d: %s is not updated in %s although its update there is %s" % (
                                  acc, n, show_cell(cell), pshow(v)))
                else:
                    rep.fail("region-coverage", where, "%s:%s" % (u.name, n),
                             "acc %d: %s is not updated in %s" % (acc, n, show_cell(cell)))
                continue
            a_, b_ = z(h.val), z(us.val)
            rep.check(a_ == b_ and set(h.guards) == set(us.guards) and set(h.rests) == set(us.rests),
                      "region-agreement", "%s:%d" % (u.file, h.line), "%s:%s" % (u.name, n),
                      lambda: "acc %d: in %s the update of %s differs from the absorbing formula with the "
                      "absorption switched off: %s" % (acc, show_cell(cell), n, diffshow(a_, b_)))
        for n in here:
            if n not in uni:
                rep.fail("region-coverage", "%s:%d" % (u.file, here[n].line), "%s:%s" % (u.name, n),
                         "acc %d: %s is updated only in %s" % (acc, n, show_cell(cell)))


def _edge(cell, pad):
    for d, lo, hi in cell:
        if lo == A("p", "n" + d) - pad:
            return True
    return False


# --------------------------------------------------------------- coverage rule
def half_dims(prop, name, dims):
    """Directions in which an array sits half a cell off the grid."""
    if prop in ("scalar", "scalar_born"):
        return set()
    m = re.match(r"^v([xyz])$", name)
    if m:
        return {m.group(1)}
    m = re.match(r"^sigma([xyz])([xyz])$", name)
    if m:
        return set() if m.group(1) == m.group(2) else {m.group(1), m.group(2)}
    return set()


def coverage(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """Each wavefield is updated exactly on the padded grid; every access is inside its array."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    facts = u.k.facts
    pad = u.k.pad
    cells = u.ctx.cells()
    state = {u.rot.get(n, n) for n in u.lin.state}
    writ = {}
    memo = {}
    for idx, cell in cells:
        tb = u.ctx.table(cell)
        for n, l in tb.items():
            writ.setdefault(n, {})[idx] = l
            for v, g, w, rest in l:
                # in-bounds: the write itself, then each read
                ok = True
                for d, lo, hi in cell:
                    if not (facts.le(ZERO, lo) and facts.le(hi, A("p", "n" + d))):
                        ok = False
                rep.check(ok, "in-bounds", "%s:%d" % (u.file, w.w.line), "%s:%s" % (u.name, n),
                          lambda: "acc %d: write of %s outside the array in %s" % (acc, n, show_cell(cell)))
                acc_ = {}
                for a in ksum._all_f(v):
                    k = akey(a)
                    for i, o in enumerate(k[2]):
                        if o:
                            acc_.setdefault((i, o), set()).add(k[1])
                for (i, o), names in acc_.items():
                    d, lo, hi = cell[i]
                    mk = (d, lo if o < 0 else hi, o)
                    if mk not in memo:
                        memo[mk] = facts.le(ZERO, lo + o) if o < 0 else facts.le(hi + o, A("p", "n" + d))
                    if memo[mk]:
                        rep.ok("in-bounds", len(names))
                        continue
                    for nm in names:
                        nm = ksum.base_name(nm)
                        rep.fail("in-bounds", "%s:%d" % (u.file, w.w.line), "%s:%s<-%s" % (u.name, n, nm),
                                 "acc %d: %s read at offset %+d along %s in %s leaves the array" % (
                                      acc, nm, o, d, show_cell(cell)))
                for a in _raw_reads(v):
                    rep.fail("in-bounds", "%s:%d" % (u.file, w.w.line), "%s:%s" % (u.name, n),
                             "acc %d: unresolved array access %s" % (acc, show(A(*akey(a)))))
    for w, cell, why in u.ctx.tab.problems:
        rep.fail("region-coverage", "%s:%d" % (u.file, w.w.line), "%s:%s" % (u.name, ksum.base_name(w.base)), why)
    # each primary array over its whole box
    edge_idx = {}
    for n in sorted(writ):
        if cls(n) != "field" or AUX.match(n):
            continue
        hd = half_dims(prop, n, u.k.dims)
        ups = {}
        for d in u.k.dims:
            ext = 0 if (prop in ("scalar", "scalar_born") or d in hd) else 1
            ups[d] = A("p", "n" + d) - pad + ext
        for idx, cell in cells:
            inside = all(facts.le(P(pad), lo) and facts.le(hi, ups[d]) for d, lo, hi in cell)
            outside = any(facts.le(ups[d], lo) or facts.le(hi, P(pad)) for d, lo, hi in cell)
            if not inside and not outside:
                rep.fail("region-coverage", u.line_of(n), "%s:%s" % (u.name, n),
                         "acc %d: region %s is neither inside nor outside the grid" % (acc, show_cell(cell)))
                continue
            got = writ[n].get(idx)
            if inside:
                rep.check(bool(got), "region-coverage", u.line_of(n), "%s:%s" % (u.name, n),
                          lambda: "acc %d: %s is never updated in %s" % (acc, n, show_cell(cell)))
            else:
                rep.check(not got, "region-coverage", u.line_of(n), "%s:%s" % (u.name, n),
                          lambda: "acc %d: %s is updated outside the grid, in %s" % (acc, n, show_cell(cell)))
        for d in u.k.dims:
            o = u.ctx.order[d]
            rep.check(facts.le(o[0], P(pad)) and facts.le(ups[d], o[-1]), "region-coverage", u.line_of(n),
                      "%s:%s" % (u.name, n), lambda d=d, o=o: "acc %d: updates along %s span [%s, %s)" % (
                          acc, d, show(o[0]), show(o[-1])))


def _raw_reads(p):
    out = set()
    for a in p.atoms():
        k = akey(a)
        if k[0] == "rd":
            out.add(a)
        elif k[0] == "ite":
            out |= _raw_reads(k[2]) | _raw_reads(k[3])
    return out


# ------------------------------------------------------------------ hazards
def hazards(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """Within a step no sweep reads a neighbour that the same sweep may or may
    not have rewritten, and every neighbour read sees one definite version."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    facts = u.k.facts
    cells = u.ctx.cells()
    W = {}
    tabs = {}
    for idx, cell in cells:
        tb = u.ctx.table(cell)
        tabs[idx] = tb
        for n, l in tb.items():
            for v, g, w, rest in l:
                W.setdefault(n, {}).setdefault(idx, []).append((w.order, w.w.line))
    # per-dimension neighbour map
    nb = {}
    for di, d in enumerate(u.k.dims):
        o = u.ctx.order[d]
        m = len(o) - 1
        for i in range(m):
            for off in range(-8, 9):
                s = []
                for j in range(m):
                    if facts.le(o[j + 1], o[i] + off) or facts.le(o[i + 1] + off, o[j]):
                        continue
                    s.append(j)
                nb[(di, i, off)] = s
    import itertools
    seen = set()
    for idx, cell in cells:
        for n, l in tabs[idx].items():
            for v, g, w, rest in l:
                for a in ksum._all_f(v):
                    k = akey(a)
                    bn = fname(k)
                    if bn not in W or k[3] != u.ctx.shot and cls(bn) == "field":
                        continue
                    offs = tuple(x or 0 for x in k[2])
                    if cls(bn) != "field":
                        if any(offs):
                            rep.fail("step-hazard", "%s:%d" % (u.file, w.w.line), "%s:%s<-%s" % (u.name, n, bn),
                                     "acc %d: accumulator %s read at a neighbouring point" % (acc, bn))
                        continue
                    key = (idx, w.order, bn, offs)
                    if key in seen:
                        continue
                    seen.add(key)
                    counts = {}
                    same = None
                    for j in itertools.product(*[nb[(di, i, offs[di])] for di, i in enumerate(idx)]):
                        ws = W[bn].get(j)
                        if not ws:
                            continue
                        before = sum(1 for o_, ln in ws if o_ < w.order)
                        counts.setdefault(before, j)
                        if any(o_ == w.order for o_, ln in ws) and (any(offs) or j != idx):
                            same = [ln for o_, ln in ws if o_ == w.order][0]
                    rep.check(same is None, "step-hazard", "%s:%d" % (u.file, w.w.line),
                              "%s:%s<-%s" % (u.name, n, bn),
                              lambda: "acc %d: the sweep that computes %s reads %s at offset %s in %s while the same "
                              "sweep rewrites it (line %s)" % (acc, n, bn, offs, show_cell(cell), same))
                    rep.check(len(counts) <= 1, "step-hazard", "%s:%d" % (u.file, w.w.line),
                              "%s:%s<-%s" % (u.name, n, bn),
                              lambda: "acc %d: %s reads %s at offset %s in %s, where some points are already updated "
                              "and others are not" % (acc, n, bn, offs, show_cell(cell)))


# --------------------------------------------------------------- time levels
def time_levels(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """The time loop visits exactly its nt steps in order, and each iteration is
    the previous one with the time-level buffers exchanged."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    k = u.k
    tl = k.tloop
    where = "%s:%d" % (u.file, tl.line)
    nt = A("p", "nt")
    ok = tl.lo is not None and tl.hi is not None and tl.step in (1, -1) and (tl.hi - tl.lo) * P(tl.step) == nt
    if k.tnow != A("lv", "T"):
        # the loop counts from elsewhere: what is indexed by time must make up for it
        for tr in ksem.transfers(u.ctx):
            ok = ok and tr.problem is None
    rep.check(ok, "time-range", where, u.name, lambda: "time loop runs from %s to %s step %s" % (
        show(tl.lo) if tl.lo is not None else "?", show(tl.hi) if tl.hi is not None else "?", tl.step))
    rep.check(all(b == F for b in tl.mu["brk"]) if isinstance(tl.mu["brk"], list) else tl.mu["brk"] == F,
              "time-range", where, u.name + ":break", lambda: "time loop can stop early when %s" % (tl.mu["brk"],))
    rot, bad = rotation(k, u.flags)
    rep.check(not bad, "buffer-roles", where, u.name,
              lambda: "array %s takes the roles of both %s and %s at the next step (line %d)" % bad[0])
    vals = [b for a, b in rot.items()]
    rep.check(len(set(vals)) == len(vals), "buffer-roles", where, u.name + ":permutation",
              lambda: "two arrays exchange into one role: %s" % rot)
    # the next iteration is the same step with the roles exchanged
    c1 = Ctx(k, u.flags, parity=1)
    cells0 = u.ctx.cells()
    cells1 = c1.cells()
    rep.check([c for i, c in cells0] == [c for i, c in cells1], "step-uniform", where, u.name,
              "odd and even steps use different regions")
    sample = [cells0[0], cells0[len(cells0) // 2], cells0[-1]]
    rename = {("p", a): ("p", b) for a, b in rot.items() if a != b}
    for idx, cell in sample:
        t0 = u.ctx.table(cell)
        t1 = c1.table(cell)
        for n, l in t0.items():
            n1 = rot.get(n, n)
            l1 = t1.get(n1, [])
            rep.check(len(l) == len(l1), "step-uniform", where, "%s:%s" % (u.name, n),
                      lambda: "acc %d: %s is written on even steps, %s %d times on odd steps" % (acc, n, n1, len(l1)))
            for (v, g, w, rest), (v1, g1, w1, rest1) in zip(l, l1):
                v = _rename(v, rename)
                rep.check(v == v1 and g == g1 and rest == rest1, "step-uniform", "%s:%d" % (u.file, w.w.line),
                          "%s:%s" % (u.name, n),
                          lambda: "acc %d: odd steps do not repeat even steps with exchanged buffers: %s" % (
                              acc, diffshow(v1, v)))
    t0 = [(t.kind, tuple((rot.get(f_, f_), c_) for f_, c_ in t.fields), t.amp, t.loc) for t in ksem.transfers(u.ctx)]
    t1 = [(t.kind, tuple(t.fields), t.amp, t.loc) for t in ksem.transfers(c1)]
    rep.check(t0 == t1, "step-uniform", where, u.name + ":transfers",
              lambda: "odd and even steps move samples differently: %s / %s" % (
                  [(x[0], [f_ for f_, _ in x[1]], x[2]) for x in t0], [(x[0], [f_ for f_, _ in x[1]], x[2]) for x in t1]))


def _rename(p, ren):
    am = {}
    for a in ksum._all_f(p):
        k = akey(a)
        if k[1] in ren:
            am[a] = A("f", ren[k[1]], k[2], k[3], k[4])
    return Subst(amap=am).poly(p) if am else p


# ----------------------------------------------------------------- transfers
def count_name(loc):
    s = re.sub(r"_i$", "", loc)
    s = re.sub(r"_i_", "_", s)
    return "n_%s_per_shot" % s


def samples(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """Every source/receiver transfer touches exactly the listed location of the
    same shot, in time order, and skips ignored entries."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    trs = ksem.transfers(u.ctx)
    rep.check(bool(trs), "sample-transfer", "%s:%d" % (u.file, u.k.fn.line), u.name, "no sample transfers")
    seen = {}
    for t in trs:
        where = "%s:%d" % (u.file, t.line)
        con = "%s:%s:%s" % (u.name, t.kind, t.amp)
        if not rep.check(t.problem is None, "sample-transfer", where, con, lambda: t.problem):
            continue
        cn = t.count.single()
        cn = akey(cn)[1] if cn is not None else show(t.count)
        want = {count_name(t.loc)}
        if t.loc == "sources_i":
            want.add("n_sourcessc_per_shot")
        rep.check(cn in want, "sample-count", where, con,
                  lambda: "locations of %s are counted by %s" % (t.loc, cn))
        # residual guard: location >= 0
        lits = t.guard[1] if t.guard[0] == "and" else [t.guard]
        ignored = False
        for l in lits:
            if l[0] == "not" and l[1][0] == "lt" or l[0] == "lt":
                p = l[1][1] if l[0] == "not" else l[1]
                rds = [a for a in p.atoms() if akey(a)[0] == "rd"]
                if rds:
                    r = p - Poly({((rds[0], 1),): Fraction(1)})
                    if l[0] == "not" and len(rds) == 1 and r == ZERO and \
                            ksum.base_name(akey(rds[0])[1]) == t.loc:
                        ignored = True
                        continue
                    rep.fail("sample-guard", where, con, "extra condition %s" % bshow(l))
                    continue
                if l[0] == "lt":
                    # thread range or empty-list test
                    ok = _range_lit(l, t)
                    rep.check(ok, "sample-guard", where, con, lambda: "extra condition %s" % bshow(l))
                    continue
                rep.fail("sample-guard", where, con, "extra condition %s" % bshow(l))
            elif l == T:
                continue
            else:
                rep.fail("sample-guard", where, con, "extra condition %s" % bshow(l))
        rep.check(ignored, "sample-ignored", where, con, "entries marked as ignored are not skipped")
        # the loop over the list is complete
        ivs = [a for a in ksem._loop_atoms(t.w) if akey(a)[1] not in ("SHOT", "T")]
        ok = False
        for l in t.w.w.loops:
            if l.kind == "loop" and l.var in ivs:
                ok = l.lo == ZERO and l.hi == t.count and l.step == 1
            elif l.kind == "launch":
                ok = any(x[0] == "lt" and any(a in x[1].atoms() for a in ivs) for x in lits) and \
                    launch_covers(l, {akey(a)[1]: t.count for a in ivs})
        rep.check(ok, "sample-complete", where, con, "not every entry of %s is visited" % t.loc)
        key = (t.kind, t.amp, tuple(f for f, c in t.fields))
        rep.check(key not in seen, "sample-once", where, con, "the same samples are transferred twice per step")
        seen[key] = t


def _range_lit(l, t):
    """variable < size   or   0 < count"""
    p = l[1]
    lvs = [a for a in p.atoms() if akey(a)[0] == "lv"]
    if not lvs:
        return p == -t.count or p == ZERO - t.count
    if len(lvs) != 1:
        return False
    r = p.lin(lvs[0])
    if r is None or r[0].const() != 1:
        return False
    nm = akey(lvs[0])[1]
    if nm == "SHOT":
        return r[1] == -A("p", "n_shots")
    return r[1] == -t.count


def launch_covers(launch, need):
    """grid*block reaches every bound in need {thread atom name 'Gx.N': bound}."""
    grid, block = launch.grid, launch.block
    for nm, bound in need.items():
        m = re.match(r"^G([xyz])\.", nm)
        if not m:
            return False
        d = m.group(1)
        g, b = dimof(grid, d), dimof(block, d)
        if g is None or b is None or not covers(g, b, bound):
            return False
    return True


def dimof(v, d):
    f = getattr(v, "f", None)
    if f is not None:
        return f.get(d, ONE)
    if isinstance(v, Poly):
        return v if d == "x" else ONE
    return None


def covers(g, b, bound):
    """g*b >= bound for all inputs: g is a rounded-up quotient of something >= bound."""
    s = g.single()
    c = b.const()
    gc = g.const()
    if gc is not None and c is not None:
        bc = bound.const()
        return bc is not None and gc * c >= bc
    if s is not None and akey(s)[0] == "idiv":
        num, den = akey(s)[1], akey(s)[2]
        if den == b:
            slack = (num - bound - b + 1).const()
            return slack is not None and slack >= 0
        return False
    if c == 1:
        d = (g - bound).const()
        return d is not None and d >= 0
    # (n-1)/b + 1
    for a in g.atoms():
        if akey(a)[0] == "idiv" and akey(a)[2] == b:
            r = g.lin(a)
            if r is not None and r[0] == ONE and r[1].const() is not None:
                slack = (akey(a)[1] + b * r[1] - bound - b + 1).const()
                return slack is not None and slack >= 0
    return False


# ------------------------------------------------------------- device agreement
def device_agreement(rep, prop, ndim, acc, pas, dtype, ctxi):
    """The two device implementations perform the same step."""
    c = Unit(prop, ndim, acc, pas, "cpu", dtype, ctxi)
    g = Unit(prop, ndim, acc, pas, "cuda", dtype, ctxi)
    rep.unit(c.id)
    rep.unit(g.id)
    name = "%s/%s/%dd" % (prop, pas, ndim)
    cuts = {d: set(c.ctx.tab.cuts[d]) | set(g.ctx.tab.cuts[d]) for d in c.k.dims}
    cc = Ctx(c.k, c.flags, cuts=cuts)
    gc = Ctx(g.k, g.flags, cuts=cuts)
    rep.check(rotation(c.k, c.flags)[0].items() >= {} .items() and
              _rot_eq(rotation(c.k, c.flags)[0], rotation(g.k, g.flags)[0]), "device-buffers",
              "%s:%d" % (g.file, g.k.tloop.line), name,
              lambda: "time-level exchange differs: %s / %s" % (rotation(c.k, c.flags)[0], rotation(g.k, g.flags)[0]))
    rc, rg = Program(cc), Program(gc)
    for idx, cell in cc.cells():
        ec, eg = composed(Program(cc, cell), rc), composed(Program(gc, cell), rg)
        for n in sorted(set(ec) | set(eg)):
            a, b = ec.get(n), eg.get(n)
            line = (b or a).line
            fl = g.file if b else c.file
            if not rep.check(a is not None and b is not None, "device-agreement", "%s:%d" % (fl, line),
                             "%s:%s" % (name, n),
                             lambda: "acc %d: %s is written only on the %s in %s" % (
                                 acc, n, "GPU" if b else "CPU", show_cell(cell))):
                continue
            va, vb = a.val, b.val
            if cls(n) == "grad":
                va, vb = _anon(va, n), _anon(vb, n)
            rep.check(va == vb, "device-agreement", "%s:%d" % (g.file, b.line), "%s:%s" % (name, n),
                      lambda: "acc %d: in %s GPU and CPU compute different values: %s" % (
                          acc, show_cell(cell), diffshow(vb, va)))
            rep.check(set(a.guards) == set(b.guards), "device-agreement", "%s:%d" % (g.file, b.line),
                      "%s:%s:guard" % (name, n), lambda: "CPU writes when %s, GPU when %s" % (
                          [bshow(x) for x in a.guards], [bshow(x) for x in b.guards]))
            if cls(n) != "grad":
                rep.check(set(a.rests) == set(b.rests), "device-agreement", "%s:%d" % (g.file, b.line),
                          "%s:%s:slot" % (name, n), lambda: "CPU writes slot %s, GPU %s" % (
                              [show(x) for x in a.rests], [show(x) for x in b.rests]))
    # transfers: same set, each at the same array version
    pc, pg = rc, rg

    def tset(pr):
        out = {}
        for e in pr.evs:
            if e.kind in ("inject", "record"):
                t = e.tr
                v = e.ver if e.kind == "inject" else tuple(e.val or ())
                out[(e.kind, t.amp, tuple(f for f, _ in t.fields))] = (
                    t.loc, tuple(c_ for _, c_ in t.fields), t.count, v, e.line)
        return out
    tc, tg = tset(pc), tset(pg)
    for key in sorted(set(tc) | set(tg), key=str):
        a, b = tc.get(key), tg.get(key)
        rep.check(a is not None and b is not None and a[:4] == b[:4], "device-transfers",
                  "%s:%d" % (g.file, (b or a)[4]), "%s:%s:%s" % (name, key[0], key[1]),
                  lambda: "CPU and GPU transfer samples differently: %s / %s" % (_ts(a), _ts(b)))


def _ts(t):
    return None if t is None else (t[0], [show(x) for x in t[1]], show(t[2]), t[3])


def _rot_eq(a, b):
    ks = set(a) | set(b)
    return all(a.get(k, k) == b.get(k, k) for k in ks)


def _anon(p, n):
    am = {}
    for a in p.atoms():
        k = akey(a)
        if k[0] == "v" and k[1] == n:
            am[a] = A("v", n, 0, k[3], ZERO)
    return Subst(amap=am).poly(p) if am else p


# --------------------------------------------------------------- launch shape
def launches(rep, prop, ndim, acc, pas, dtype):
    """Every GPU launch starts a thread for each point its kernel is guarded to handle."""
    k = kernel(prop, ndim, acc, pas, "cuda", dtype)
    u = Unit(prop, ndim, acc, pas, "cuda", dtype, 0)
    rep.unit(u.id)

    def rec(effs):
        for e in effs:
            if e.kind == "launch":
                need = {}
                for w in cabs.flat(e.body):
                    lits = w.pc[1] if w.pc[0] == "and" else [w.pc]
                    for a in ksum._pc_atoms(w.pc) | w.idx.atoms():
                        kk = akey(a)
                        if kk[0] == "lv" and kk[1][0] == "G":
                            ubs = [ksum._ub(l, a) for l in lits]
                            ubs = [x for x in ubs if x is not None]
                            if not ubs:
                                # grid points: idx = G + pad
                                need.setdefault(kk[1], []).append((None, w))
                            for x in ubs:
                                need.setdefault(kk[1], []).append((x, w))
                for nm, lst in need.items():
                    bounds = {}
                    for x, w in lst:
                        bounds[x] = w
                    okall = False
                    for x, w in bounds.items():
                        if x is not None and launch_covers(e, {nm: x}):
                            okall = True
                    if None in bounds and len(bounds) == 1:
                        # never guarded: the launch must not exceed the array; exact shape only
                        okall = False
                    rep.check(okall, "launch-shape", "%s:%d" % (u.file, e.line),
                              "%s:%s:%s" % (u.name, e.name, nm[:2]),
                              lambda: "acc %d: %s launched with grid %s, block %s does not cover %s" % (
                                  acc, e.name, show(dimof(e.grid, nm[1])) if dimof(e.grid, nm[1]) is not None else e.grid,
                                  dimof(e.block, nm[1]), [show(x) if x is not None else None for x in bounds]))
            elif e.kind == "loop":
                rec(e.body)
    rec(k.effects)


# ----------------------------------------------------------- shot independence
def shot_isolation(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """A shot reads and writes only its own slice of every per-shot array."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    SH = A("lv", "SHOT")
    slot = u.ctx.shot
    tstep = idiv(A("lv", "T"), A("p", "step_ratio"))
    snap = slot + tstep * A("p", "n_shots") * ngrid(ndim)
    batched = {}
    tid = A("tid")

    def expect(n):
        c = cls(n)
        if c == "store":
            return (snap,)
        if c == "grad":
            m = re.sub(r"_thread$", "", n)[len("grad_"):]
            for k_, g_ in GRADMAP.get(prop, {}).items():
                if g_ == "grad_" + m:
                    m = k_
            if device == "cpu" and not u.flags.get(flag_of(prop, m) + "_batched"):
                return (tid * ngrid(ndim),)
            return (slot,)
        if n in MODELS[prop]:
            return (slot,) if u.flags.get(flag_of(prop, n) + "_batched") else (ZERO,)
        if pml_dim(n):
            return (ZERO,)
        return (slot,)
    seen = set()
    for idx, cell in u.ctx.cells():
        for n, l in u.ctx.table(cell).items():
            for v, g, w, rest in l:
                items = [(n, rest, "write")]
                for a in ksum._all_f(v):
                    k = akey(a)
                    items.append((fname(k), k[3], "read"))
                for nm, r, what in items:
                    key = (nm, r, what, w.w.line)
                    if key in seen:
                        continue
                    seen.add(key)
                    ex = expect(nm)
                    if ex is None:
                        continue
                    rep.check(r in ex, "shot-slice", "%s:%d" % (u.file, w.w.line), "%s:%s:%s" % (u.name, what, nm),
                              lambda: "acc %d: %s of %s at offset %s instead of %s" % (
                                  acc, what, nm, show(r), " or ".join(show(x) for x in ex)))


# ------------------------------------------------------------- parallel writes
def parallel_writes(rep, prop, ndim, acc, pas, device, dtype, ctxi):
    """Iterations that run concurrently never write one element."""
    u = Unit(prop, ndim, acc, pas, device, dtype, ctxi)
    rep.unit(u.id)
    k = u.k
    sub = k.subst(0, u.flags)
    slot = u.ctx.shot
    ng = ngrid(ndim)
    n = 0
    if device == "cpu":
        par = [e for e in _walk(k.effects) if e.kind == "loop" and e.prag and "parallel" in e.prag]
        rep.check(len(par) >= 1 and k.shotloop in par, "parallel-loop", "%s:%d" % (u.file, k.fn.line), u.name,
                  "the loop over shots is not the parallel loop")
        for pl in par:
            for w in cabs.flat(pl.body):
                if sub.b(w.pc) == F:
                    continue
                base = sub.bs(w.base)
                idx = sub.poly(w.idx)
                n += 1
                nm = ksum.base_name(base)
                own = idx.lin(pl.var) if pl.var is not None else None
                tidc = [a for a in idx.atoms() if "tid" in str(akey(a))]
                where = "%s:%d" % (u.file, w.line)
                con = "%s:%s" % (u.name, nm)
                if tidc:
                    c = idx.lin(tidc[0])
                    rep.check(c is not None and c[0] == ng, "thread-private", where, con,
                              lambda: "per-thread accumulator %s strided by %s" % (nm, show(c[0]) if c else "?"))
                    continue
                rep.check(own is not None and own[0] != ZERO, "thread-private", where, con,
                          lambda: "%s[%s] is written by every shot and is neither per shot nor per thread" % (
                              nm, show(idx)))
        # reductions after the loop
        rep.check(n > 0, "thread-private", "%s:%d" % (u.file, k.fn.line), u.name, "no writes found")
    else:
        for e in _walk(k.effects):
            if e.kind != "launch":
                continue
            bywr = {}
            for w in cabs.flat(e.body):
                if sub.b(w.pc) == F:
                    continue
                idx = sub.poly(w.idx)
                base = sub.bs(w.base)
                nm = ksum.base_name(base)
                if base[0] in ("shared", "local"):
                    continue
                where = "%s:%d" % (u.file, w.line)
                con = "%s:%s:%s" % (u.name, e.name, nm)
                # thread atoms with more than one thread
                th = set()
                for a in ksum._pc_atoms(w.pc) | idx.atoms() | _rd_atoms(w.val):
                    if akey(a)[0] == "lv" and akey(a)[1][0] == "G":
                        th.add(a)
                ind = cabs._indirect(idx)
                deep = set(idx.atoms())
                for a in list(deep):
                    if akey(a)[0] == "rd":
                        deep |= akey(a)[2].atoms()
                miss = [akey(a)[1] for a in th if a not in deep and not _single(e, a)]
                rep.check(not miss, "thread-private", where, con,
                          lambda: "threads %s all write %s[%s]" % (miss, nm, show(idx)))


def _single(launch, a):
    m = re.match(r"^G([xyz])\.", akey(a)[1])
    g, b = dimof(launch.grid, m.group(1)), dimof(launch.block, m.group(1))
    return g == ONE and b == ONE


def _rd_atoms(v):
    out = set()
    if isinstance(v, Poly):
        for a in v.atoms():
            if akey(a)[0] == "rd":
                out |= akey(a)[2].atoms()
            elif akey(a)[0] == "lv":
                out.add(a)
    return out


def _walk(effs):
    for e in effs:
        yield e
        if e.kind in ("loop", "launch"):
            yield from _walk(e.body)
