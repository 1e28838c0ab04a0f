"""Compares what reaches the compiled propagators, and what comes back, with
the specification in glue.Case."""
import re

from . import kspec, pyeq, pytensor as pt
from . import terms as t
from .glue import A, P, B, IGN, Case, fatom, mk, pk, Call
from .pyfacts import S, Unsupported, fdiv, FLOATS

PROVED = set()          # of the configuration being driven
MODES = {"device": 0, "cpu": 1, "disk": 2, "none": 3}


class Checker:
    def __init__(self, case, rep, rules):
        self.c = case
        self.cfg = case.cfg
        self.path = case.path
        self.it = case.it
        self.rep = rep
        self.rules = rules

    def ok(self, rule, n=1):
        if rule in self.rules:
            self.rep.ok(rule, n)

    def fail(self, rule, where, construct, msg):
        if rule in self.rules:
            self.rep.fail(rule, where, construct, "%s: %s" % (self.cfg.label(), msg))

    # --------------------------------------------------------- comparisons
    def number(self, rule, where, what, got, want):
        if want is None or rule not in self.rules:
            return
        try:
            g = pk(got)[0]
        except Unsupported:
            return self.fail(rule, where, what, "%r is not a number" % (got,))
        r = pyeq.differs(self.path, g, want)
        if r is None:
            self.ok(rule)
        else:
            self.fail(rule, where, what, pyeq.show_case(r))

    def content(self, rule, where, what, x, read, shape, spec, kind="f", under=None):
        """x, read as `read`, must have this shape and hold spec(idx)."""
        if rule not in self.rules:
            return
        got = [pk(d)[0] for d in x.shape]
        want = [P(d) if isinstance(d, int) else d for d in shape]
        drop = [i for i, d in enumerate(got) if d.const() == 1]
        wdrop = [i for i, d in enumerate(want) if d.const() == 1]
        g = [d for i, d in enumerate(got) if i not in drop]
        w = [d for i, d in enumerate(want) if i not in wdrop]
        same = len(g) == len(w) and all(pyeq.differs(self.path, a, b) is None for a, b in zip(g, w))
        if not same:
            return self.fail(rule, where, what, "shape [%s], expected [%s]" % (
                ", ".join(t.show(d) for d in got), ", ".join(t.show(d) for d in want)))
        if x.kind != kind or (kind == "f" and x.dtype is not self.it.dtype):
            return self.fail(rule, where, what, "element type %s" % x.dtype.name)
        if spec is None:
            return self.ok(rule)
        ix = [P(0) if i in wdrop else A("ix", "%s.%d" % (what, i)) for i in range(len(want))]

        def inside(path):
            for i, d in enumerate(want):
                if i not in wdrop:
                    path.bounds[ix[i].single()] = (0, None)
                    path.facts.append(d - 1 - ix[i])
            path._memo = {}
            b = under(tuple(ix)) if under is not None else None
            if b is not None:
                path.assume(b)
        with pyeq.Branch(self.path, None):
            inside(self.path)
            gi = iter([v for i, v in enumerate(ix) if i not in wdrop])
            gidx = tuple(P(0) if i in drop else next(gi) for i in range(len(got)))
            p, q = read(gidx), spec(tuple(ix))
        # a proof from the inputs alone holds on every path
        key = ("content", what, p, q)
        if key in PROVED:
            return self.ok(rule)
        base = self.c.base
        with pyeq.Branch(base, None):
            inside(base)
            r = pyeq.differs(base, p, q)
        if r is None:
            PROVED.add(key)
            return self.ok(rule)
        with pyeq.Branch(self.path, None):
            inside(self.path)
            r = pyeq.differs(self.path, p, q)
        if r is None:
            self.ok(rule)
        else:
            self.fail(rule, where, what, pyeq.show_case(r))

    def pointer(self, rule, call, role, what=None):
        """The tensor behind a pointer argument, or None."""
        a = call.arg(role)
        where = call.where
        what = what or "argument %s of %s" % (role, call.name)
        if not isinstance(a, pt.Ptr):
            self.fail(rule, where, what, "no tensor is passed (%r)" % (a,))
            return None
        if a.t.contig is not True:
            self.fail(rule, where, what, "the tensor is not contiguous")
            return None
        if (a.t.device.type == "cuda") != self.cfg.cuda:
            self.fail(rule, where, what, "the tensor is on device %s" % a.t.device.type)
            return None
        return a.t


# ------------------------------------------------------------ specification
class Spec:
    """Expected values of the kernel arguments of a case."""

    def __init__(self, case):
        self.c = case
        self.cfg = case.cfg
        c, cfg = case, case.cfg
        self.ns = c.ns.p
        R = pk(c.R)[0]
        self.nt = pk(c.nt)[0] * R
        self.dt = c.dt.p if R.const() == 1 else c.dt.p * t.inv(R)
        self.ratio = R * pk(c.M)[0]
        self.prof = {}
        self.up = {}

    # models -------------------------------------------------------------
    def kmodel(self, role, s, idx):
        c, cfg = self.c, self.cfg
        m = c.model
        if cfg.prop in ("scalar", "scalar_born"):
            if role == "v2dt2":
                return m("v", s, idx) ** 2 * self.dt ** 2
            return m(role, s, idx)
        if role in ("k", "lamb", "mu"):
            if role == "k":
                return m("rho", s, idx) * m("v", s, idx) ** 2
            return m(role, s, idx)

        def sh(*ds):
            return tuple(i + 1 if d in ds else i for d, i in zip(cfg.dims, idx))

        def last(d):
            j = cfg.dims.index(d)
            return t.b_eq0(idx[j] - c.Np[j] + 1)
        if role.startswith("buoyancy_"):
            d = role[-1]
            if cfg.prop == "acoustic":
                r0, r1 = m("rho", s, idx), m("rho", s, sh(d))
            else:
                r0, r1 = t.inv(m("buoyancy", s, idx)), t.inv(m("buoyancy", s, sh(d)))
            return t.ite(last(d), P(0), t.inv((r0 + r1) * P(1) * _half()))
        if role.startswith("mu_"):
            a, b = role[3], role[4]
            q = P(0)
            vs = [m("mu", s, idx), m("mu", s, sh(a)), m("mu", s, sh(b)), m("mu", s, sh(a, b))]
            for v in vs:
                q = q + t.inv(v)
            zero = t.b_or(last(a), last(b), *[t.b_eq0(v) for v in vs])
            return t.ite(zero, P(0), P(4) * t.inv(q))
        return None

    def kmodels(self):
        p = self.cfg.prop
        d = self.cfg.dims
        if p == "scalar":
            return ["v"]
        if p == "scalar_born":
            return ["v", "scatter"]
        if p == "acoustic":
            return ["k"] + ["buoyancy_" + x for x in d]
        mus = {1: [], 2: ["mu_yx"], 3: ["mu_zy", "mu_zx", "mu_yx"]}[len(d)]
        return ["lamb", "mu"] + mus + ["buoyancy_" + x for x in d]

    def model_batched(self, role):
        return self.cfg.batched

    # sources ------------------------------------------------------------
    def amp(self, sfx, s, k, ti):
        """Source amplitude on the inner time grid."""
        c = self.c
        name = "source_amplitudes" + sfx
        if pk(c.R)[0].const() == 1:
            return fatom("in", name, s, k, ti)
        if name not in self.up:
            self.up[name] = pt.reader(c.it.ref("resample", "upsample", c.inp[name], c.R, **c.rs))
        return self.up[name]((s, k, ti))

    def source(self, role, s, k, ti):
        c, cfg = self.c, self.cfg
        if role == "fsc":
            sfx = ""
        else:
            sfx = [x[0] for x in cfg.src if x[1] == role][0]
        co = c.coords("source_locations" + sfx, s, k)
        idx = tuple(x + c.pad0(d) for d, x in zip(cfg.dims, co))
        a = self.amp(sfx, s, k, ti)
        if role == "f" :
            return -a * self.kmodel("v", s, idx) ** 2 * self.dt ** 2
        if role == "fsc":
            return P(-2) * a * self.kmodel("v", s, idx) * self.kmodel("scatter", s, idx) * self.dt ** 2
        comp = sfx.strip("_")
        if comp == "p":
            return a * self.kmodel("k", s, idx) * self.dt if cfg.prop == "acoustic" else -a * self.dt
        return a * self.kmodel("buoyancy_" + comp, s, idx) * self.dt

    def location(self, name, s, k):
        c, cfg = self.c, self.cfg
        co = c.coords(name, s, k)
        f = c.flat(tuple(x + c.pad0(d) for d, x in zip(cfg.dims, co)))
        if cfg.ignores(name):
            return t.ite(self.ignored(name, s, k), P(IGN), f)
        return f

    def ignored(self, name, s, k):
        return ("eq", A("in", "ign:" + name, s, k))

    def receiver(self, role, name, s, k, ti):
        """What the caller gets for a receiver."""
        c, it = self.c, self.c.it

        def fn(i):
            v = fatom("rec", role, i[2], i[0], i[1])
            return t.ite(self.ignored(name, i[0], i[1]), P(0), v) if self.cfg.ignores(name) else v
        if pk(c.R)[0].const() == 1:
            return fn((s, k, ti))
        if role not in self.up:
            x = pt.new(it, fn, (c.ns, c.nrec[name], mk(self.nt, "i")), it.dtype, pt.CPU)
            self.up[role] = pt.reader(it.ref("resample", "downsample", x, c.R, **c.rs))
        return self.up[role]((s, k, ti))

    # profiles -------------------------------------------------------------
    def profile(self, role):
        """(dimension, reader) of a profile argument."""
        m = re.match(r"^(a|b|db)([zyx])(h|d[zyx])?$", role)
        if not m:
            return None
        kind, d, x = m.groups()
        half = x == "h"
        c, cfg, it = self.c, self.cfg, self.c.it
        key = (d, half)
        if key not in self.prof:
            j = cfg.dims.index(d)
            w = [it.binop(_mult(), c.pw[e, s], c.h[e]) for e in cfg.dims for s in (0, 1)]
            thick = it.builtins["max"]
            thick = it.call(thick, [w], {})
            dev = pt.CUDA if cfg.cuda else pt.CPU
            a, b = it.ref("pml", "profile", mk(_half(), "f") if half else 0, c.N[d], cfg.fp[0], cfg.fp[1],
                          c.pw[d, 0], c.pw[d, 1], thick, mk(self.dt, "f"), self.maxvel(), c.freq, it.dtype, dev)
            self.prof[key] = pt.reader(a), pt.reader(b)
        a, b = self.prof[key]
        if kind == "a":
            return d, lambda i: a((i,))
        if kind == "b":
            return d, lambda i: b((i,))
        return None

    def slope(self, call, d):
        """Derivative of the b profile that is passed with the call."""
        c, cfg = self.c, self.cfg
        j = cfg.dims.index(d)
        N = c.Np[j]
        b = call.read("b" + d)

        def diff(i):
            s = P(0)
            for n, w in kspec.centred(cfg.acc, 1).items():
                s = s + b(tuple(i + n if k == 1 + j else P(0) for k in range(1 + cfg.ndim))) * P(w)
            v = s * t.inv(c.h[d].p)
            return t.ite(t.b_or(t.b_lt0(i - cfg.fd), t.b_not(t.b_lt0(i - (N - cfg.fd)))), P(0), v)
        return d, diff

    def maxvel(self):
        return self.c.maxvel()

    # pml bounds -----------------------------------------------------------
    def bound(self, role, pas):
        m = re.match(r"^pml_([zyx])([01])$", role)
        if not m:
            return None
        c, cfg = self.c, self.cfg
        d, side = m.group(1), int(m.group(2))
        j = cfg.dims.index(d)
        N, fd = c.Np[j], cfg.fd
        w0, w1 = pk(c.pw[d, 0])[0], pk(c.pw[d, 1])[0]
        return N, fd, w0, w1, side


def _half():
    from fractions import Fraction
    return P(Fraction(1, 2))


def _mult():
    import ast
    return ast.Mult()


def state(c, f, T, s, idx):
    """Content of field f when the step T is about to be taken."""
    if T.const() == 0:
        return c.initial(f, s, idx)
    return t.ite(c.live(f, idx), fatom("st", f.role, T, s, *idx), P(0))


def profile_role(role):
    return re.match(r"^(a|b|db)[zyx](h|d[zyx])?$", role)


def scalars(spec, call):
    """Expected value of each numeric argument of a call (by parameter)."""
    c, cfg = spec.c, spec.cfg
    out = {"n_shots": spec.ns, "step_ratio": spec.ratio, "storage_mode": P(0 if cfg.mode == "cpu" and not cfg.cuda else MODES[cfg.mode]),
           "storage_compression": P(1 if cfg.comp else 0), "dt": spec.dt, "dt2": spec.dt ** 2}
    for d, N in zip(cfg.dims, c.Np):
        out["n" + d] = N
        out["rd" + d] = t.inv(c.h[d].p)
        out["rd" + d + "2"] = t.inv(c.h[d].p) ** 2
    for sfx, role, li, n in cfg.src:
        out[n] = c.nsrc[sfx].p
    if cfg.prop == "scalar_born":
        out["n_sourcessc_per_shot"] = c.nsrc[""].p
    for name, role, li, n in cfg.rec:
        out[n] = c.nrec[name].p
    for r in call.roles:
        if r.endswith("_batched"):
            out[r] = P(1 if cfg.batched else 0)
        elif r.endswith("_requires_grad"):
            out[r] = P(1 if cfg.model_wants(r[:-len("_requires_grad")]) and cfg.mode != "none" else 0)
    return out


def forward_args(ck, spec, call, T0):
    """Every argument of one forward call against the specification."""
    c, cfg, path = ck.c, ck.cfg, ck.path
    if len(call.args) < len(call.roles):
        ck.fail("abi", call.where, call.name, "called with %d arguments, it takes %d" % (len(call.args), len(call.roles)))
        return
    ns = spec.ns
    nums = scalars(spec, call)
    fields = {f.role: f for f in cfg.fields}
    srcs = {r: (sfx, li) for sfx, r, li, n in cfg.src}
    if cfg.prop == "scalar_born":
        srcs["fsc"] = ("", "sources_i")
    locs = {li: "source_locations" + sfx for sfx, r, li, n in cfg.src}
    recs = {r: (name, li) for name, r, li, n in cfg.rec}
    locs.update({li: name for name, r, li, n in cfg.rec})
    spatial = c.Np
    for role in call.roles:
        what = "argument %s of %s" % (role, call.name)
        if role in nums:
            ck.number("arguments", call.where, what, call.arg(role), nums[role])
        elif role in spec.kmodels():
            x = ck.pointer("models", call, role, what)
            if x is not None:
                b = [ns] if cfg.batched else [P(1)]
                ck.content("models", call.where, what, x, call.read(role), b + spatial,
                           lambda i, role=role: spec.kmodel(role, i[0], i[1:]))
        elif role in srcs:
            sfx, li = srcs[role]
            x = ck.pointer("sources", call, role, what)
            if x is not None:
                n = c.nsrc[sfx].p
                und = (lambda i, sfx=sfx: t.b_not(spec.ignored("source_locations" + sfx, i[1], i[2]))) \
                    if cfg.ignores("source_locations" + sfx) else None
                ck.content("sources", call.where, what, x, call.read(role), [spec.nt, ns, n],
                           lambda i, role=role: spec.source(role, i[1], i[2], i[0]), under=und)
        elif role in locs:
            x = ck.pointer("locations", call, role, what)
            if x is not None:
                nm = locs[role]
                n = (c.nsrc[nm[len("source_locations"):]] if nm.startswith("source") else c.nrec[nm]).p
                ck.content("locations", call.where, what, x, call.read(role), [ns, n],
                           lambda i, nm=nm: spec.location(nm, i[0], i[1]), kind="i")
        elif role in recs:
            x = ck.pointer("receivers", call, role, what)
            if x is not None:
                nm, li = recs[role]
                ck.content("receivers", call.where, what, x, call.read(role), [spec.nt, ns, c.nrec[nm].p],
                           (lambda i, role=role: t.ite(t.b_lt0(i[0] - T0), fatom("rec", role, *i), P(0)))
                           if not cfg.ign or T0.const() == 0 else None)
        elif role in fields:
            x = ck.pointer("wavefields", call, role, what)
            if x is not None:
                f = fields[role]
                ck.content("wavefields", call.where, what, x, call.read(role), [ns] + spatial,
                           lambda i, f=f: state(c, f, T0, i[0], i[1:]))
        elif profile_role(role):
            x = ck.pointer("pml", call, role, what)
            if x is not None:
                d, rd = spec.slope(call, role[2]) if role.startswith("db") else spec.profile(role)
                j = cfg.dims.index(d)
                ck.content("pml", call.where, what, x, call.read(role),
                           [P(1) if k != j else N for k, N in enumerate(spatial)],
                           lambda i, rd=rd, j=j: rd(i[j]))
