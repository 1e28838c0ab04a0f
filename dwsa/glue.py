"""Drives the Python layer abstractly from the public functions down to the
compiled entry points and on to the returned tensors, and holds the
specification both are compared with."""
import os
import re
from fractions import Fraction

from . import pyeq, pytensor as pt
from . import terms as t
from .ksem import ROLES
from .pyfacts import S, B, Path, Unsupported, Pruned, explore, mk, mkb, pk, integer, real, fdiv, fmod, FLOATS
from .pyint import Interp, PyRaise, Func, Native, Module, Obj, Cls
from .terms import A, P

REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref")
IGN = -(1 << 31)
DIMS = "zyx"


def fatom(*k):
    p = A(*k)
    a = p.single()
    if a is not None:
        FLOATS.add(a)
    return p


def tin(it, name, shape, dtype=None, rg=False, contig=True, elem=None):
    """Input tensor whose elements are free symbols."""
    dtype = dtype or it.dtype

    def fn(idx):
        p = A("in", name, *idx)
        if dtype.kind == "f":
            FLOATS.add(p.single())
        return elem(idx, p) if elem else p
    f = (lambda idx: ("eq", A("in", name, *idx))) if dtype.kind == "b" else fn
    x = pt.new(it, f, tuple(shape), dtype, pt.CUDA if it.cuda else pt.CPU, "input:" + name, rg,
               frozenset([name]) if rg else frozenset())
    x.name = name
    x.contig = contig
    return x


class Call:
    """One call of a compiled entry point."""

    def __init__(self, kf, args, where, it):
        self.name = kf.name
        self.argtypes = kf.argtypes
        self.args = list(args)
        self.where = where
        self.grad = it.grad
        self.mut = it.mut
        m = re.match(r"(.+)_iso_(\d)d_(\d+)_(float|double)_(\w+)_(cpu|cuda)$", self.name)
        if not m:
            raise Unsupported("entry point name %s" % self.name)
        self.prop, self.ndim, self.acc, self.dtype, self.pas, self.device = m.groups()
        self.ndim, self.acc = int(self.ndim), int(self.acc)
        self.roles = ROLES["%s/%d/%s" % (self.prop, self.ndim, self.pas)]
        # contents of the buffers when the call is made
        self.content = [pt.reader(a.t) if isinstance(a, pt.Ptr) else None for a in args]

    def arg(self, role):
        i = self.roles.index(role)
        return self.args[i] if i < len(self.args) else None

    def tensor(self, role):
        a = self.arg(role)
        return a.t if isinstance(a, pt.Ptr) else None

    def read(self, role):
        return self.content[self.roles.index(role)]

    def num(self, role):
        v = self.arg(role)
        return pk(v)[0]


class Run(Interp):
    def __init__(self, path, dtype="float32", cuda=False, **k):
        Interp.__init__(self, path, **k)
        self.cuda = cuda
        self.dtype = pt.DTYPES[dtype]
        self.kmodel = None

    def kernel(self, kf, args, node):
        c = Call(kf, args, self.where(node), self)
        self.calls.append(c)
        if self.kmodel and len(c.args) >= len(c.roles):
            self.kmodel(self, c)
        return 0

    def ref(self, mod, fn, *args, **kw):
        """Result of a reference function interpreted in this analysis."""
        name = "ref:" + mod
        m = self.mods.get(name)
        if m is None:
            m = Module(name, os.path.join(REF, mod + ".py"))
            self.mods[name] = m
            self.run_module(m)
        return self.call(m.d[fn], list(args), kw)


# --------------------------------------------------------------- propagators
class Field:
    def __init__(self, role, api, out, half, layer, pair=None):
        self.role = role        # kernel parameter
        self.api = api          # keyword of the public function
        self.half = half        # dimensions with half-cell offset
        self.layer = layer      # dimension of the PML memory, or None
        self.pair = pair        # role of the second buffer (forward)


def half_of(name, letters):
    h = set()
    for c in letters:
        h ^= {c}
    return h


def fields(prop, dims):
    """Wavefields in documented output order."""
    F = []
    if prop in ("scalar", "scalar_born"):
        for sc in ([""] if prop == "scalar" else ["", "sc"]):
            u = "_sc" if sc else ""
            F.append(Field("wfc" + sc, "wavefield%s_0" % u, None, set(), None, "wfp" + sc))
            F.append(Field("wfp" + sc, "wavefield%s_m1" % u, None, set(), None))
            for d in dims:
                F.append(Field("psi" + d + sc, "psi%s%s_m1" % (d, u), None, set(), d, "psi" + d + "n" + sc))
            for d in dims:
                F.append(Field("zeta" + d + sc, "zeta%s%s_m1" % (d, u), None, set(), d))
    elif prop == "acoustic":
        F.append(Field("p", "pressure_0", None, set(), None))
        for d in dims:
            F.append(Field("v" + d, "v%s_0" % d, None, {d}, None))
        for d in dims:
            F.append(Field("phi_" + d, "phi_%s_0" % d, None, set(), d))
        for d in dims:
            F.append(Field("psi_" + d, "psi_%s_0" % d, None, {d}, d))
    else:
        order = ("vz vy vx sigmazz sigmayz sigmaxz sigmayy sigmaxy sigmaxx m_vzz m_vzy m_vzx m_vyz m_vxz "
                 "m_vyy m_vyx m_vxy m_vxx m_sigmazzz m_sigmayzy m_sigmaxzx m_sigmayzz m_sigmaxzz m_sigmayyy "
                 "m_sigmaxyy m_sigmaxyx m_sigmaxxx").split()
        for n in order:
            s = re.sub(r"^(m_)?(v|sigma)", "", n)
            if not all(c in dims for c in s):
                continue
            kind = n[:-len(s)]
            if kind in ("v", "m_v", "m_sigma"):
                h = half_of(n, s)
            else:
                h = half_of(n, s)
            F.append(Field(n, n + "_0", None, h, s[-1] if kind.startswith("m_") else None))
    return F


class Cfg:
    def __init__(self, prop, ndim, acc=4, batched=False, wavefields=False, ign=False, callbacks=False, ratio=1,
                 mgsi=1, mode="device", cuda=False, rg=True, comp=False, dtype="float32", zero_pml=(), python=False,
                 sources=True, receivers=True, vmax=None, taper=(), region=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.dims = DIMS[-ndim:]
        self.fd = acc // 2
        self.fp = (self.fd, self.fd) if prop.startswith("scalar") else (self.fd, self.fd - 1)
        self.staggered = not prop.startswith("scalar")
        self.fields = fields(prop, self.dims)
        d = self.dims
        self.cbmodels = {"scalar": {"v": "v"}, "scalar_born": {"v": "v", "scatter": "scatter"}}.get(prop)
        if prop == "acoustic":
            self.cbmodels = {"K": "k", **{"B" + x: "buoyancy_" + x for x in d}}
        elif prop == "elastic":
            self.cbmodels = {n: n for n in ["lamb", "mu"] + {1: [], 2: ["mu_yx"], 3: ["mu_zy", "mu_zx", "mu_yx"]}[
                ndim] + ["buoyancy_" + x for x in d]}
        if prop == "scalar":
            self.models = ["v"]
            self.kmodels = ["v"]
            self.src = [("", "f", "sources_i", "n_sources_per_shot")]
            self.rec = [("receiver_locations", "r", "receivers_i", "n_receivers_per_shot")]
        elif prop == "scalar_born":
            self.models = ["v", "scatter"]
            self.src = [("", "f", "sources_i", "n_sources_per_shot")]
            self.rec = [("bg_receiver_locations", "r", "receivers_i", "n_receivers_per_shot"),
                        ("receiver_locations", "rsc", "receiverssc_i", "n_receiverssc_per_shot")]
        elif prop == "acoustic":
            self.models = ["v", "rho"]
            cs = ["p"] + list(d)
            kn = {c: ("p" if c == "p" else "v" + c) for c in cs}
            self.src = [("_" + c, "f_" + kn[c], "sources_i_" + kn[c], "n_sources_%s_per_shot" % kn[c]) for c in cs]
            self.rec = [("receiver_locations_" + c, "r_" + kn[c], "receivers_i_" + kn[c],
                         "n_receivers_%s_per_shot" % kn[c]) for c in cs]
        else:
            self.models = ["lamb", "mu", "buoyancy"]
            cs = list(d) + ["p"]
            self.src = [("_" + c, "f_" + c, "sources_%s_i" % c, "n_sources_%s_per_shot" % c) for c in cs]
            cs = ["p"] + list(d)
            self.rec = [("receiver_locations_" + c, "r_" + c, "receivers_%s_i" % c, "n_receivers_%s_per_shot" % c)
                        for c in cs]

    def ignores(self, name):
        """May locations of this list be ignored ones?"""
        return name in self.ign if isinstance(self.ign, (set, frozenset)) else bool(self.ign)

    def wants(self, name):
        """Is a gradient requested for this input?"""
        if isinstance(self.rg, (set, frozenset)):
            return name in self.rg
        return bool(self.rg)

    def model_wants(self, role):
        """Does a model parameter of the kernels depend on an input that needs a gradient?"""
        if role.startswith("grad_"):
            role = role[5:]
        if self.prop == "acoustic":
            return self.wants("rho") or (role == "k" and self.wants("v"))
        for m in ("v", "scatter", "lamb", "mu", "buoyancy"):
            if role == m or role.startswith(m + "_") or (m == "buoyancy" and role == "b"):
                return self.wants(m)
        if self.prop == "scalar" and role == "v2dt2":
            return self.wants("v")
        return False

    def store_wants(self, var):
        """Is the wavefield kept in these buffers needed to get the model gradients?"""
        w = self.model_wants
        if self.mode == "none":
            return False
        if self.prop == "scalar":
            return w("v")
        if self.prop == "scalar_born":
            return w("v") or (var == "w" and w("scatter"))
        if self.prop == "acoustic":
            return w("k") if var.startswith("k_") else w("buoyancy_x")
        if "buoyancy" in var:
            return w("buoyancy")
        return w("mu") or ("_plus_" not in var and w("lamb"))

    def label(self):
        out = ["%s %dd accuracy %d" % (self.prop, self.ndim, self.acc)]
        for k in ("batched", "wavefields", "ign", "callbacks", "cuda", "comp", "python"):
            if getattr(self, k):
                out.append(k)
        if isinstance(self.rg, (set, frozenset)):
            out.append("gradients of " + "+".join(sorted(self.rg)))
        if self.ratio != 1:
            out.append("subsampled")
        if self.vmax:
            out.append("max_vel")
        if self.taper:
            out.append("taper " + "".join(self.taper))
        if self.region:
            out.append("region from " + self.region)
        if self.mgsi != 1:
            out.append("sparse gradients")
        if self.mode != "device":
            out.append(self.mode)
        return ", ".join(out)


class Case:
    """Symbolic inputs of one public call and what must follow from them."""

    def __init__(self, cfg, path, shared):
        self.cfg = c = cfg
        self.path = path
        self.it = it = Run(path, c.dtype, c.cuda, shared=shared)
        self.n = {d: integer("n" + d) for d in c.dims}
        for d in c.dims:
            path.nonneg_atom(self.n[d], 2)
        self.pw = {}
        for d in c.dims:
            for s in (0, 1):
                if (d, s) in c.zero_pml:
                    self.pw[d, s] = 0
                else:
                    self.pw[d, s] = x = integer("pw%s%d" % (d, s))
                    path.nonneg_atom(x, 1)
        self.h = {d: real("h" + d) for d in c.dims}
        self.dt = real("dt")
        self.freq = real("pml_freq")
        path.positive(self.dt, self.freq, *self.h.values())
        self.ns = integer("ns")
        self.nt = integer("nt")
        path.nonneg_atom(self.ns, 2 if c.batched else 1)
        path.nonneg_atom(self.nt, 1)
        self.R = 1
        self.M = 1
        if c.mgsi == "M":
            self.M = integer("M")
            path.nonneg_atom(self.M, 2)
            self.G = integer("G")
            path.nonneg_atom(self.G, 1)
            self.nt = mk(self.G.p * self.M.p, "i")
        elif c.mgsi != 1:
            self.M = c.mgsi
        if c.ratio == "R":
            self.R = integer("R")
            path.nonneg_atom(self.R, 2)
            n, r = self.nt.p, self.R.p                 # nt >= 1 and R >= 2
            path.facts += [n * r - 2 * n, A("fdiv", n * r, P(2)) - A("fdiv", n, P(2)) - 1]
        self.ceils = []
        self.ignlits = set()

        def ceil(p):
            self.ceils.append(p)
            return self.R
        it.ceil = ceil
        path.hints.append(self.hint)
        self.cache = shared
        # extent of the simulated part of the model
        self.o = {d: 0 for d in c.dims}
        self.e = dict(self.n)
        if c.region == "origin":
            for d in c.dims:
                self.o[d] = integer("origin" + d)
                self.e[d] = integer("extent" + d)
                path.nonneg_atom(self.o[d], 0)
                path.nonneg_atom(self.e[d], 2)
                path.facts.append(pk(self.n[d])[0] - self.o[d].p - self.e[d].p)
        self.N = {d: it_add(it, self.e[d], self.pw[d, 0], self.pw[d, 1], sum(c.fp)) for d in c.dims}
        self.Np = [pk(self.N[d])[0] for d in c.dims]
        self.build()

    def hint(self, b):
        if b[0] == "eq" and _mentions(b[1], "nunique"):
            return True            # premise: locations are distinct within a shot
        if b[0] == "eq":
            p = b[1].single() or (-b[1]).single()
            k = t.key(p) if p is not None else None
            if k and k[0] in ("count", "red") and "ign:" in t.bshow(b):
                self.ignlits.add(b)
                nm = re.search(r"ign:(\w+)", t.bshow(b)).group(1)
                for o in self.ignlits:
                    v = self.path.lits.get(o)
                    if o is not b and v is not None and "ign:%s," % nm in t.bshow(o):
                        o0 = t.key(o[1].single() or (-o[1]).single())
                        # all ignored contradicts none ignored (there is at least one)
                        if o0[0] != k[0] and v:
                            return False
        return None

    # ------------------------------------------------------------- inputs
    def build(self):
        c, it, path = self.cfg, self.it, self.path
        n = [self.n[d] for d in c.dims]
        self.inp = {}
        kw = {}
        args = []
        for m in c.models:
            path.inputs[m] = (0 if m != "scatter" else None, None, m != "scatter")
            sh = ([self.ns] if c.batched else []) + n
            args.append(tin(it, m, sh, rg=c.wants(m)))
            self.inp[m] = args[-1]
        kw["grid_spacing"] = [self.h[d] for d in c.dims]
        kw["dt"] = self.dt
        kw["accuracy"] = c.acc
        kw["pml_width"] = [self.pw[d, s] for d in c.dims for s in (0, 1)]
        kw["pml_freq"] = self.freq
        self.nsrc, self.nrec = {}, {}
        for sfx, role, _, _ in c.src:
            x = integer("n_src" + sfx)
            path.nonneg_atom(x, 1)
            self.nsrc[sfx] = x
            a = "source_amplitudes" + sfx
            l = "source_locations" + sfx
            kw[a] = self.inp[a] = tin(it, a, [self.ns, x, self.nt], rg=c.wants(a))
            kw[l] = self.inp[l] = self.loc(l, x, sfx)
        for name, role, _, _ in c.rec:
            x = integer("n_" + name)
            path.nonneg_atom(x, 1)
            self.nrec[name] = x
            kw[name] = self.inp[name] = self.loc(name, x, name[len("receiver_locations"):])
        if c.region == "origin":
            kw["origin"] = [self.o[d] for d in c.dims]
        if c.wavefields:
            sh = [self.ns] + [it_add(it, self.e[d], self.pw[d, 0], self.pw[d, 1]) for d in c.dims]
            for f in c.fields:
                kw[f.api] = self.inp[f.api] = tin(it, f.api, sh, rg=c.wants(f.api))
        self.seen = []
        if c.callbacks:
            self.F = integer("F")
            path.nonneg_atom(self.F, 1)
            kw["callback_frequency"] = self.F
            kw["forward_callback"] = Native(lambda st: self.observe("forward", st), "forward_callback")
            kw["backward_callback"] = Native(lambda st: self.observe("backward", st), "backward_callback")
        if c.vmax:
            self.vmax = kw["max_vel"] = real("max_vel")
            path.positive(self.vmax)
        self.rs = {}
        for k, nm in (("f", "freq_taper_frac"), ("p", "time_pad_frac")):
            if k in c.taper:
                self.rs[nm] = x = real(nm)
                path.positive(x)
                path.bounds[x.p.single()] = (Fraction(0), Fraction(1))
        if "p" in c.taper and c.ratio == "R":
            n = self.nt.p
            n = n + A("trunc", self.rs["time_pad_frac"].p * n)
            path.facts += [n * self.R.p - 2 * n, A("fdiv", n * self.R.p, P(2)) - A("fdiv", n, P(2)) - 1]
        if "t" in c.taper:
            self.rs["time_taper"] = True
        kw.update(self.rs)
        if c.mgsi != 1:
            kw["model_gradient_sampling_interval"] = self.M
        if c.mode != "device":
            kw["storage_mode"] = c.mode
        if c.comp:
            kw["storage_compression"] = True
        self.args, self.kw = args, kw
        self.base = path.clone()

    def observe(self, pas, st):
        """What a callback sees, read when it is called."""
        it, cfg = self.it, self.cfg
        o = {"pass": pas, "step": it.getattr(st, "step"), "dt": it.getattr(st, "dt"), "where": it.where(it.node)}
        jobs = [("wavefield", f.api) for f in cfg.fields] + [("model", n) for n in cfg.cbmodels]
        if pas == "backward":
            jobs += [("gradient", n) for n in cfg.cbmodels]
        for kind, n in jobs:
            for view in ("inner", "pml", "full"):
                try:
                    x = it.call(it.getattr(st, "get_" + kind), [n, view], {})
                    o[kind, n, view] = (x, pt.reader(x)) if isinstance(x, pt.T) else (x, None)
                except PyRaise as e:
                    o[kind, n, view] = (e, None)
        self.seen.append(o)

    def loc(self, name, k, comp):
        c, it, path = self.cfg, self.it, self.path
        comp = comp.strip("_")
        off = 0
        nd = [pk(self.o[d])[0] + pk(self.e[d])[0] for d in c.dims]
        lo = [pk(self.o[d])[0] for d in c.dims]

        def hi(idx):
            j = idx[2].const() if len(idx) == 3 else None
            if j is None or not 0 <= j < c.ndim:
                return None
            d = c.dims[int(j)]
            less = 1
            if c.staggered and comp == d:
                less = 2
            return nd[int(j)] - less
        path.inputs[name] = (0, hi, False) if c.region != "origin" else (0, hi, False, lambda idx: lo[int(
            idx[2].const())] if len(idx) == 3 and idx[2].const() is not None and 0 <= idx[2].const() < c.ndim else None)
        elem = None
        if c.ignores(name):
            def elem(idx, p):
                return t.ite(("eq", A("in", "ign:" + name, *idx[:2])), P(IGN), p)
        return tin(it, name, [self.ns, k, c.ndim], pt.I64, elem=elem)

    def coords(self, name, s, k):
        """Coordinates of location k of shot s in the simulated region."""
        return [A("in", name, s, k, P(j)) - pk(self.o[d])[0] for j, d in enumerate(self.cfg.dims)]

    def flat(self, idx):
        o = P(0)
        for i, N in zip(idx, self.Np):
            o = o * N + i
        return o

    def maxvel(self):
        if self.cfg.vmax:
            return self.vmax
        """Largest speed of the model, as given by the caller or computed."""
        c = self.cfg
        if c.prop == "elastic":
            return self.it.ref("vel", "elastic", *[self.inp[m] for m in c.models])
        return self.it.ref("vel", "regular", self.inp["v"])

    # ------------------------------------------------- padded quantities
    def pad0(self, d):
        return pk(self.pw[d, 0])[0] + self.cfg.fp[0]

    def clampi(self, idx):
        """Model index of each padded index (edge values are replicated)."""
        o = []
        for d, i in zip(self.cfg.dims, idx):
            o.append(t.mmin(t.mmax(i - self.pad0(d), P(0)), pk(self.e[d])[0] - 1) + pk(self.o[d])[0])
        return o

    def model(self, name, s, idx):
        b = [s] if self.cfg.batched else []
        if name == "scatter":
            i = [x - self.pad0(d) for d, x in zip(self.cfg.dims, idx)]
            cond = t.b_and(*[t.b_and(t.b_not(t.b_lt0(x)), t.b_lt0(x - pk(self.e[d])[0]))
                             for d, x in zip(self.cfg.dims, i)])
            i = [x + pk(self.o[d])[0] for d, x in zip(self.cfg.dims, i)]
            return t.ite(cond, fatom("in", name, *(b + i)), P(0))
        return fatom("in", name, *(b + self.clampi(idx)))

    def interior(self, idx):
        cs = []
        for i, N in zip(idx, self.Np):
            cs += [t.b_not(t.b_lt0(i - self.cfg.fp[0])), t.b_lt0(i - (N - self.cfg.fp[1]))]
        return t.b_and(*cs)

    def live(self, f, idx, part="init"):
        """Where field f may be nonzero."""
        c = self.cfg
        cs = [self.interior(idx)]
        for d, i, N in zip(c.dims, idx, self.Np):
            if d in f.half:
                cs.append(t.b_not(t.b_eq0(i - (N - c.fd))))
            if f.layer == d:
                e = N - pk(self.pw[d, 1])[0] - c.fp[1] - (1 if d in f.half else 0)
                cs.append(t.b_or(t.b_lt0(i - self.pad0(d)), t.b_not(t.b_lt0(i - e))))
        return t.b_and(*cs)

    def initial(self, f, s, idx):
        if not self.cfg.wavefields:
            return P(0)
        u = [i - self.cfg.fp[0] for i in idx]
        return t.ite(self.live(f, idx), fatom("in", f.api, s, *u), P(0))

    def state(self, f, T, s, idx, tag="st"):
        """Content of field f after T steps."""
        if T.const() == 0:
            return self.initial(f, s, idx)
        return t.ite(self.interior(idx), fatom(tag, f.role, T, s, *idx), P(0))


def it_add(it, *xs):
    o = P(0)
    for x in xs:
        o = o + pk(x)[0]
    return mk(o, "i")


def _mentions(p, kind):
    for a in p.atoms():
        k = t.key(a)
        if k[0] == kind or any(_mentions_obj(x, kind) for x in k[1:]):
            return True
    return False


def _mentions_obj(x, kind):
    if isinstance(x, t.Poly):
        return _mentions(x, kind)
    if isinstance(x, (tuple, frozenset)):
        return any(_mentions_obj(y, kind) for y in x)
    return False


def run(cfg, post=None, limit=60, effects=None):
    """All paths of the public call under cfg: (path, case, kind, value)."""
    shared = set()

    def go(path):
        cs = Case(cfg, path, shared)
        if effects:
            cs.it.kmodel = effects(cs)
        m = cs.it.module("deepwave." + cfg.prop)
        try:
            out = cs.it.call(m.d[cfg.prop], cs.args, cs.kw)
        except PyRaise as e:
            return "raise", (cs, e)
        if post:
            post(cs, out)
        return "ok", (cs, out)
    return [(p, v[0], k, v[1]) for p, k, v in explore(go, None, limit)]
