"""Runs public calls abstractly and compares everything the compiled code is
given, and everything the caller gets back, with the specification."""
from . import geff, pyeq, pytensor as pt
from . import terms as t
from .gcheck import Checker, PROVED, Spec, forward_args, profile_role, scalars
from .glue import A, P, B, IGN, Case, Cfg, fatom, mk, pk, run, tin
from .pyfacts import Unsupported
from .pyint import Static
import ast as _ast
from fractions import Fraction as _F


def geprove(ck, rule, where, what, a, b):
    """a >= b"""
    if rule not in ck.rules:
        return
    c = t.b_not(t.b_lt0(a - b))
    r = pyeq.differs(ck.path, t.ite(c, P(1), P(0)), P(1))
    if r is None:
        ck.ok(rule)
    else:
        cs = " and ".join(t.bshow(x if v else t.b_not(x)) for x, v in r[2])
        ck.fail(rule, where, what, "%s is not at least %s%s" % (t.show(a, 150), t.show(b, 150), " when " + cs[:250] if cs else ""))


STABLE = {False: {2: _F(1), 4: _F(11548, 10000), 6: _F(12293, 10000), 8: _F(12750, 10000)},
          True: {2: _F(1), 4: _F(11667, 10000), 6: _F(12418, 10000), 8: _F(12864, 10000)}}


def flat(p):
    """Undo the reciprocal of a reciprocal and the square root of a square."""
    out = P(0)
    for k, co in p.m.items():
        m = P(co)
        for a, e in k:
            x = t.key(a)
            if x[0] == "inv" and e < 0:
                for _ in range(-e):
                    m = m * flat(x[1])
                continue
            b = A(*x)
            if x[0] == "fn" and x[1] == "sqrt" and len(x[2].m) == 1:
                (k2, c2), = x[2].m.items()
                if c2 == 1 and all(z % 2 == 0 for _, z in k2):
                    b = P(1)
                    for y, z in k2:
                        b = b * (A(*t.key(y)) ** (z // 2) if z > 0 else t.inv(A(*t.key(y))) ** (-z // 2))
            m = m * (b ** e if e > 0 else t.inv(b) ** (-e))
        out = out + m
    return out


def cfl(ck, spec, where):
    """The internal time step keeps the scheme stable: it is the requested one divided by at least
    dt * vmax * sqrt(sum 1/h^2) * (half the square root of the largest symbol of the discrete Laplacian)."""
    c, cfg = ck.c, ck.cfg
    if "cfl" not in ck.rules:
        return
    s = P(0)
    for d in cfg.dims:
        s = s + t.inv(c.h[d].p) ** 2
    s = flat(fatom("fn", "sqrt", s))
    v = pk(c.maxvel())[0]
    if not c.ceils:
        return ck.fail("cfl", where, "number of internal steps", "is not the ceiling of any ratio of time steps")
    for p in c.ceils:
        geprove(ck, "cfl", where, "number of internal steps", flat(p), c.dt.p * s * v * P(STABLE[cfg.staggered][cfg.acc]))


def bounds(ck, spec, call, extra):
    """The region advanced without absorbing terms lies where they vanish."""
    c, cfg = ck.c, ck.cfg
    for j, d in enumerate(cfg.dims):
        N, fd = c.Np[j], P(cfg.fd)
        w0, w1 = pk(c.pw[d, 0])[0], pk(c.pw[d, 1])[0]
        try:
            p0, p1 = call.num("pml_%s0" % d), call.num("pml_%s1" % d)
        except (Unsupported, ValueError, TypeError):
            ck.fail("bounds", call.where, call.name, "the absorbing bounds of %s are not numbers" % d)
            continue
        what = "pml_%s%%d of %s" % (d, call.name)
        e0, e1 = extra
        lo = t.mmin(w0 + cfg.fp[0] + e0, N - fd) if not cfg.staggered or call.pas != "forward" else w0 + cfg.fp[0]
        geprove(ck, "bounds", call.where, what % 0, p0, t.mmin(w0 + cfg.fp[0] + e0, N - fd))
        geprove(ck, "bounds", call.where, what % 0, p0, fd)
        geprove(ck, "bounds", call.where, what % 1, p1, p0)
        geprove(ck, "bounds", call.where, what % 1, t.mmax(p0, N - w1 - cfg.fp[1] - e1), p1)
        geprove(ck, "bounds", call.where, what % 1, N - (fd if not cfg.staggered else fd - 1), p1)


def margin(cfg, pas):
    """Cells next to the layer that the layer's memory variables reach."""
    if not cfg.staggered:
        return (cfg.fd, cfg.fd) if pas == "forward" else (2 * cfg.fd, 2 * cfg.fd)
    return (0, 0) if pas == "forward" else (cfg.fd, cfg.fd)


def threads(ck, call):
    c, cfg, path = ck.c, ck.cfg, ck.path
    got = call.arg("n_threads")
    what = "argument n_threads of %s" % call.name
    if cfg.cuda:
        return
    try:
        p = pk(got)[0]
    except Unsupported:
        return ck.fail("arguments", call.where, what, "%r is not a number" % (got,))
    geprove(ck, "arguments", call.where, what, p, P(1))
    return p


def sequence(ck, spec, calls, down, T0=None):
    """The calls cover every time step once, in order."""
    T = spec.nt if down else P(0)
    end = P(0) if down else spec.nt
    for call in calls:
        try:
            s, n = call.num("start_t"), call.num("nt")
        except (Unsupported, TypeError, ValueError):
            ck.fail("sequence", call.where, call.name, "start_t or nt is not a number")
            return
        ck.number("sequence", call.where, "argument start_t of %s" % call.name, mk(s, "i"), T)
        T = T - n if down else T + n
        geprove(ck, "sequence", call.where, "argument nt of %s" % call.name, n, P(1))
    where = calls[-1].where if calls else ""
    ck.number("sequence", where, "time steps run by %s" % (calls[0].name if calls else "no call"), mk(T, "i"), end)


def storage(ck, spec, call, like=None):
    """Storage of the wavefield needed by backpropagation."""
    c, cfg, path = ck.c, ck.cfg, ck.path
    size = 4 if cfg.dtype == "float32" else 8
    n = P(1)
    nb = P(1)
    for N in c.Np:
        n = n * N
        nb = nb * pk(ck.it.binop(_FloorDiv, mk(N + 7, "i"), 8))[0]
    steps = pk(ck.it.binop(_FloorDiv, mk(spec.nt, "i"), mk(spec.ratio, "i")))[0]
    ck.number("storage", call.where, "argument shot_bytes_uncomp of %s" % call.name, call.arg("shot_bytes_uncomp"), n * size)
    bc = None
    if cfg.comp and cfg.mode != "none":
        bc = call.num("shot_bytes_comp")
        geprove(ck, "storage", call.where, "argument shot_bytes_comp of %s" % call.name, bc, n + nb * size)
        ck.number("storage", call.where, "alignment of shot_bytes_comp of %s" % call.name,
                  ck.it.binop(_Mod, mk(bc, "i"), size), P(0))
    ns = spec.ns
    need = {}
    if cfg.mode != "none":
        if cfg.mode == "device" or (cfg.mode == "cpu" and not cfg.cuda):
            if cfg.comp:
                need = {"1": ns * n * size, "1b": ns * n * size, "2": steps * ns * bc}
            else:
                need = {"1": steps * ns * n * size}
        elif cfg.mode == "cpu":
            need = {"1": ns * n * size, "1b": ns * n * size, "3": steps * ns * (bc if cfg.comp else n * size)}
            if cfg.comp:
                need["2"] = ns * bc
        else:
            need = {"1": ns * n * size}
            if cfg.comp:
                need["2"] = ns * bc
            if cfg.cuda:
                need["3"] = ns * (bc if cfg.comp else n * size)
    for role in call.roles:
        if "_store_" not in role:
            continue
        var, k = role.split("_store_")
        if k not in need or not cfg.store_wants(var):
            continue
        what = "argument %s of %s" % (role, call.name)
        a = call.arg(role)
        if not isinstance(a, pt.Ptr):
            ck.fail("storage", call.where, what, "no buffer is passed")
            continue
        if a.t.contig is not True:
            ck.fail("storage", call.where, what, "the buffer is not contiguous")
            continue
        b = P(a.t.dtype.size)
        for d in a.t.shape:
            b = b * pk(d)[0]
        geprove(ck, "storage", call.where, what, b, need[k])
        want = "cpu" if (k == "3" or not cfg.cuda) else "cuda"
        if a.t.device.type != want:
            ck.fail("storage", call.where, what, "the buffer is on %s" % a.t.device.type)
    seen = {}
    for role in call.roles:
        if "_store_" in role:
            a = call.arg(role)
            var, k = role.split("_store_")
            if isinstance(a, pt.Ptr) and k in need and cfg.store_wants(var):
                if a.t.root().st in seen:
                    ck.fail("storage", call.where, "argument %s of %s" % (role, call.name),
                            "shares its buffer with %s" % seen[a.t.root().st])
                seen[a.t.root().st] = role


def same_storage(ck, fwd, bwd):
    """Backpropagation reads the buffers the forward pass wrote."""
    for role in bwd.roles:
        if "_store_" not in role and not role.endswith("_filenames_ptr"):
            continue
        if role not in fwd.roles:
            continue
        a, b = fwd.arg(role), bwd.arg(role)
        what = "argument %s of %s" % (role, bwd.name)
        if isinstance(a, pt.Ptr) and isinstance(b, pt.Ptr):
            if a.t.root().st is b.t.root().st:
                ck.ok("storage")
            else:
                ck.fail("storage", bwd.where, what, "is not the buffer given to the forward pass")
        elif a is b or a == b:
            ck.ok("storage")
        else:
            ck.fail("storage", bwd.where, what, "is not what the forward pass was given")


_FloorDiv, _Mod = _ast.FloorDiv(), _ast.Mod()


# ------------------------------------------------------------------ outputs
def outputs(ck, spec, out, where):
    c, cfg = ck.c, ck.cfg
    want = []
    T = spec.nt
    crop = [N - sum(cfg.fp) for N in c.Np]
    for f in cfg.fields:
        want.append(("final " + f.api, [spec.ns] + crop,
                     lambda i, f=f: t.ite(c.live(f, uncrop(cfg, i[1:])),
                                          fatom("st", f.role, T, i[0], *uncrop(cfg, i[1:])), P(0)), None))
    nt = pk(c.nt)[0]
    for name, role, li, n in cfg.rec:
        sg = t.P(-1) * P(_frac(1, cfg.ndim)) if cfg.prop == "elastic" and role == "r_p" else P(1)

        def rd(i, role=role, name=name, sg=sg):
            return sg * spec.receiver(role, name, *i)
        want.append(("receiver data at %s" % name, [spec.ns, c.nrec[name].p, nt], rd, None))
    if not isinstance(out, (list, tuple)) or len(out) != len(want):
        ck.fail("outputs", where, "return value", "%s values, expected %d" % (
            len(out) if isinstance(out, (list, tuple)) else "no tuple of", len(want)))
        return
    for x, (what, shape, rd, _) in zip(out, want):
        if not isinstance(x, pt.T):
            ck.fail("outputs", where, what, "%r is not a tensor" % (x,))
            continue
        if x.device.type != ("cuda" if cfg.cuda else "cpu"):
            ck.fail("outputs", where, what, "the tensor is on %s" % x.device.type)
            continue
        ck.content("outputs", where, what, x, pt.reader(x), shape, rd)


def uncrop(cfg, idx):
    return tuple(i + cfg.fp[0] for i in idx)


def _frac(a, b):
    from fractions import Fraction
    return Fraction(a, b)


# -------------------------------------------------------------- differentiation
def grad_role(cfg, role):
    if cfg.prop == "acoustic":
        return "grad_" + role.replace("buoyancy_", "b")
    return "grad_" + role


def backward(ck, spec, ev, fwd):
    """Backpropagation through the autograd function of a public call."""
    c, cfg, it = ck.c, ck.cfg, ck.it
    _, cls, ctx, args, out = ev
    n0 = len(it.calls)
    grads = []
    where = cls.name + ".backward"
    names = [carries(o) for o in out]
    for nm, o in zip(names, out):
        if nm is None:
            return ck.fail("gradients", where, cls.name, "an output of the autograd function carries no field")
        grads.append(tin(it, "g:" + nm, list(o.shape), contig=False))
    intact(ck, [("the saved tensor %d of %s" % (i, cls.name), x, w) for i, (x, w) in enumerate(
        zip(ctx.saved or (), getattr(ctx, "saved_state", ()))) if x is not None], "saved", "before backpropagation")
    old = it.grad
    it.grad = False
    try:
        f = cls.lookup("backward")
        f = f.f if isinstance(f, Static) else f
        res = it.call(f, [ctx] + grads, {})
    finally:
        it.grad = old
    if not isinstance(res, (tuple, list)):
        res = (res,)
    calls = it.calls[n0:]
    intact(ck, [("the incoming gradient of %s" % nm, g, 0) for nm, g in zip(names, grads)], "inputs", "by backpropagation")
    if not calls:
        return ck.fail("gradients", where, cls.name, "no compiled backward call is made")
    sequence(ck, spec, calls, True)
    T = spec.nt
    mod = {}
    for call in calls:
        if call.pas == "backward_sc" and any(cfg.wants(x) for x in ["v"] + [f.api for f in cfg.fields if
                                                                            not f.role.endswith("sc")]):
            ck.fail("gradients", call.where, call.name, "leaves out the background gradients that are needed")
            return
        if call.pas not in ("backward", "backward_sc"):
            ck.fail("gradients", call.where, call.name, "is not the backward pass")
            return
        backward_args(ck, spec, call, T)
        same_storage(ck, fwd, call)
        for r in call.roles:
            g = call.tensor(r)
            if r.startswith("grad_") and g is not None:
                mod[r] = call
        T = T - call.num("nt")
    if cfg.callbacks:
        callbacks(ck, spec, c.seen, calls, "backward")
    results(ck, spec, cls, args, res, fwd, calls, where)
    return res


def intact(ck, tensors, rule, when):
    """The storage of each tensor has not been written (since w writes)."""
    if rule not in ck.rules:
        return
    for what, x, w in tensors:
        st = x.root().st
        if rule == "inputs":
            more = [st]
            for y in more:                  # copies that are not made if the tensor is contiguous
                more += y.aliases
            st = next((y for y in more if y.writes), st)
        if st.writes == w:
            ck.rep.ok(rule)
            continue
        ev = [e for e in ck.it.events if e[0] == "write" and e[1] is st][w:]
        ck.fail(rule, ev[0][3] if ev else "deepwave." + ck.cfg.prop, what, "is overwritten %s" % when)


def backward_args(ck, spec, call, T):
    c, cfg, path = ck.c, ck.cfg, ck.path
    if len(call.args) < len(call.roles):
        ck.fail("abi", call.where, call.name, "called with %d arguments, it takes %d" % (len(call.args), len(call.roles)))
        return
    ns = spec.ns
    nums = scalars(spec, call)
    fields = {f.role: f for f in cfg.fields}
    second = {b: a for a, b in geff.pairs(call)}
    srcs = {"grad_" + r: (sfx, li) for sfx, r, li, n in cfg.src}
    if cfg.prop == "scalar_born":
        srcs["grad_fsc"] = ("", "sources_i")
    locs = {li: "source_locations" + sfx for sfx, r, li, n in cfg.src}
    recs = {"grad_" + r: (name, li, r) for name, r, li, n in cfg.rec}
    locs.update({li: name for name, r, li, n in cfg.rec})
    gm = {grad_role(cfg, r): r for r in spec.kmodels()}
    spatial = c.Np
    last = T.same(spec.nt) if hasattr(T, "same") else T == spec.nt
    bounds(ck, spec, call, margin(cfg, "backward"))
    none = {("n_sourcessc_per_shot" if r == "fsc" else n): r for sfx, f, li, n in cfg.src for r in
            ((f, "fsc") if cfg.prop == "scalar_born" else (f,)) if not cfg.wants("source_amplitudes" + sfx)}
    for role in call.roles:
        what = "argument %s of %s" % (role, call.name)
        if role in none and (not isinstance(call.arg("grad_" + none[role]), pt.Ptr) or
                             pyeq.differs(path, call.num(role), P(0)) is None):
            ck.number("arguments", call.where, what, call.arg(role), P(0))
        elif role in nums:
            ck.number("arguments", call.where, what, call.arg(role), nums[role])
        elif role in spec.kmodels() or role == "v2dt2":
            x = ck.pointer("models", call, role, what)
            if x is not None:
                b = [ns] if cfg.batched else [P(1)]
                ck.content("models", call.where, what, x, call.read(role), b + spatial,
                           lambda i, role=role: spec.kmodel(role, i[0], i[1:]))
        elif role in srcs:
            sfx, li = srcs[role]
            if not cfg.wants("source_amplitudes" + sfx):
                continue
            x = ck.pointer("gradients", call, role, what)
            if x is not None:
                ck.content("gradients", call.where, what, x, call.read(role), [spec.nt, ns, c.nsrc[sfx].p],
                           (lambda i: P(0)) if last else None)
        elif role in locs:
            x = ck.pointer("locations", call, role, what)
            if x is not None:
                nm = locs[role]
                n = (c.nsrc[nm[len("source_locations"):]] if nm.startswith("source") else c.nrec[nm]).p
                ck.content("locations", call.where, what, x, call.read(role), [ns, n],
                           lambda i, nm=nm: spec.location(nm, i[0], i[1]), kind="i")
        elif role in recs:
            x = ck.pointer("gradients", call, role, what)
            if x is not None:
                nm, li, r = recs[role]
                ck.content("gradients", call.where, what, x, call.read(role), [spec.nt, ns, c.nrec[nm].p],
                           lambda i, r=r: fatom("in", "g:" + r, *i))
        elif role in gm:
            if not cfg.model_wants(gm[role]):
                continue
            x = ck.pointer("gradients", call, role, what)
            if x is not None:
                b = [ns] if cfg.batched else [P(1)]
                ck.content("gradients", call.where, what, x, call.read(role), b + spatial,
                           (lambda i: P(0)) if last else None)
        elif role.endswith("_thread") and role[:-7] in gm:
            scratch(ck, spec, call, role, what)
        elif role in fields:
            x = ck.pointer("gradients", call, role, what)
            if x is not None:
                f = fields[role]
                ck.content("gradients", call.where, what, x, call.read(role), [ns] + spatial,
                           lambda i, f=f: adjoint(spec, f, T, i[0], i[1:]))
        elif role in second:
            x = ck.pointer("gradients", call, role, what)
            if x is not None:
                f = fields[second[role]]
                ck.content("gradients", call.where, what, x, call.read(role), [ns] + spatial,
                           lambda i, f=f: t.ite(c.live(f, i[1:]), fatom("stale", f.role, T, *i), P(0))
                           if not last else P(0))
        elif profile_role(role):
            x = ck.pointer("pml", call, role, what)
            if x is not None:
                d, rd = spec.slope(call, role[2]) if role.startswith("db") else spec.profile(role)
                j = cfg.dims.index(d)
                ck.content("pml", call.where, what, x, call.read(role),
                           [P(1) if k != j else N for k, N in enumerate(spatial)],
                           lambda i, rd=rd, j=j: rd(i[j]))
    if not cfg.cuda:
        threads(ck, call)
    storage(ck, spec, call)


def carries(x):
    """The field or receiver record whose values a tensor holds."""
    if not isinstance(x, pt.T):
        return None
    todo = [fingerprint(x)[1]]
    while todo:
        v = todo.pop()
        for a in v.atoms() if isinstance(v, t.Poly) else ():
            k = t.key(a)
            if k[0] in ("st", "rec"):
                return k[1]
            todo.extend(y for y in k[1:] if isinstance(y, t.Poly))
    return None


def adjoint(spec, f, T, s, idx):
    c, cfg = spec.c, spec.cfg
    if T == spec.nt:
        u = [i - cfg.fp[0] for i in idx]
        sg = -1 if f.role in ("wfp", "wfpsc") else 1
        return t.ite(c.live(f, idx), P(sg) * fatom("in", "g:" + f.role, s, *u), P(0))
    return t.ite(c.live(f, idx), fatom("bw", f.role, T, s, *idx), P(0))


def scratch(ck, spec, call, role, what):
    """Per-thread (CPU) or per-shot (GPU) accumulation buffer."""
    c, cfg = ck.c, ck.cfg
    if not cfg.model_wants(role[:-7]):
        return
    x = ck.pointer("gradients", call, role, what)
    main = call.tensor(role[:-7])
    if x is None or main is None:
        return
    if cfg.cuda:
        need = None if cfg.batched else (spec.ns, cfg.mode != "none")
        b = spec.ns
    else:
        b = threads(ck, call)
        if b is None:
            return
    private = t.b_not(t.b_lt0(b - 2))
    want = ck.path.prove(private)
    if cfg.batched:
        want = False
    if want is None:
        want = ck.path.decide(private)
    if not want or cfg.mode == "none":
        return
    if len(x.shape) == 1 + cfg.ndim:
        geprove(ck, "gradients", call.where, "slots of " + what, pk(x.shape[0])[0], b)
        b = pk(x.shape[0])[0]
    ck.content("gradients", call.where, what, x, call.read(role), [b] + c.Np, lambda i: P(0))
    if x.root().st is main.root().st:
        ck.fail("gradients", call.where, what, "is the same buffer as %s" % role[:-7])


def callbacks(ck, spec, seen, calls, pas):
    """Callbacks see the state of the step they are told, at every interval."""
    c, cfg = ck.c, ck.cfg
    F = pk(c.F)[0]
    R = pk(c.R)[0]
    seen = [o for o in seen if o["pass"] == pas]
    where = seen[0]["where"] if seen else "%s %s" % (cfg.prop, pas)
    if len(seen) != len(calls):
        return ck.fail("callbacks", where, "%s callback" % pas, "is called %d times for %d intervals" % (
            len(seen), len(calls)))
    done = {}
    T = P(0) if pas == "forward" else spec.nt
    for k, (o, call) in enumerate(zip(seen, calls)):
        n = call.num("nt")
        if pas == "backward":
            T = T - n
            done[k] = call
            rest = len(calls) - 1 - k
            ck.number("callbacks", where, "interval of the %s callback" % pas,
                      mk(T if not rest else n, "i"), P(0) if not rest else F * R)
        else:
            ck.number("callbacks", where, "interval of the %s callback" % pas, mk(T, "i"), P(k) * F * R)
        ck.number("callbacks", where, "step told to the %s callback" % pas, o["step"] if R.const() == 1 else
                  mk(pk(o["step"])[0] * R, "i"), T)
        if R.const() == 1:
            ck.number("callbacks", where, "dt told to the %s callback" % pas, o["dt"], c.dt.p)
        for key, (x, rd) in o.items() if False else [(q, v) for q, v in o.items() if isinstance(q, tuple)]:
            kind, name, view = key
            what = "%s(%r, view=%r) in the %s callback" % ("get_" + kind, name, view, pas)
            if rd is None:
                ck.fail("callbacks", where, what, "raises %s" % (x,) if not isinstance(x, (int, str)) else repr(x))
                continue
            lo = []
            hi = []
            for j, d in enumerate(cfg.dims):
                a, b = {"full": (0, 0), "pml": cfg.fp,
                        "inner": (cfg.fp[0] + c.pw[d, 0].p if not isinstance(c.pw[d, 0], int) else cfg.fp[0],
                                  cfg.fp[1] + c.pw[d, 1].p if not isinstance(c.pw[d, 1], int) else cfg.fp[1])}[view]
                lo.append(P(a))
                hi.append(P(b))
            sh = [N - a - b for N, a, b in zip(c.Np, lo, hi)]

            def at(i, lo=lo):
                return tuple(q + a for q, a in zip(i, lo))
            if kind == "wavefield":
                f = [f for f in cfg.fields if f.api == name][0]
                if pas == "forward":
                    sp = lambda i, f=f, at=at: live_state(spec, f, T, i[0], at(i[1:]))
                else:
                    sp = lambda i, f=f, at=at: adjoint(spec, f, T, i[0], at(i[1:]))
                ck.content("callbacks", where, what, x, rd, [spec.ns] + sh, sp)
            else:
                role = cfg.cbmodels[name]
                b = [spec.ns] if cfg.batched else [P(1)]
                if kind == "model":
                    sp = lambda i, role=role, at=at: spec.kmodel(role, i[0], at(i[1:]))
                else:
                    gr = grad_role(cfg, role)
                    sp = lambda i, gr=gr, at=at, q=list(done.values()): sum_(
                        fatom("gm", gr, z.num("start_t"), z.num("nt"), i[0], *at(i[1:])) for z in q)
                ck.content("callbacks", where, what, x, rd, b + sh, sp)
        if pas == "forward":
            T = T + n


def live_state(spec, f, T, s, idx):
    c = spec.c
    if T.const() == 0:
        return c.initial(f, s, idx)
    return t.ite(c.live(f, idx), fatom("st", f.role, T, s, *idx), P(0))


def fingerprint(x):
    n = len(x.shape)
    ix = tuple(A("fp", str(i)) for i in range(n))
    return n, pt.reader(x)(ix)


def results(ck, spec, cls, args, res, fwd, calls, where):
    """Each gradient is returned in the position of the input it belongs to."""
    c, cfg, it, path = ck.c, ck.cfg, ck.it, ck.path
    if len(res) < len(args) or any(r is not None for r in res[len(args):]):
        ck.fail("gradients", where, cls.name, "%d gradients for %d inputs" % (len(res), len(args)))
        return
    known = {}
    for role in spec.kmodels():
        known.setdefault(id(_base(fwd.tensor(role)) if fwd.tensor(role) is not None else None), ("model", role))
    for sfx, role, li, n in cfg.src:
        x = fwd.tensor(role)
        known.setdefault(id(_base(x)), ("source", role))
    if cfg.prop == "scalar_born":
        known.setdefault(id(_base(fwd.tensor("fsc"))), ("source", "fsc"))
    left = {v for v in known.values()}
    byapi = {f.api: f for f in cfg.fields}
    if cfg.wavefields:
        left |= {("field", n) for n in byapi}
    lo = [N - sum(cfg.fp) for N in c.Np]
    for k, (a, g) in enumerate(zip(args, res)):
        if not isinstance(a, pt.T) or not a.rg:
            continue
        kind = known.get(id(_base(a)))
        if kind is None and len(a.gin) == 1 and next(iter(a.gin)) in byapi:
            kind = ("field", next(iter(a.gin)))
        if kind is None:
            ck.fail("gradients", where, "input %d of %s" % (k, cls.name), "does not reach the compiled code")
            continue
        left.discard(kind)
        what = "gradient of %s" % kind[1]
        if not isinstance(g, pt.T):
            ck.fail("gradients", where, what, "is not returned")
            continue
        if kind[0] == "model":
            gr = grad_role(cfg, kind[1])

            def rd(i, gr=gr):
                return sum_((fatom("gm", gr, q.num("start_t"), q.num("nt"), *i) for q in calls))
            b = [spec.ns] if cfg.batched else [P(1)]
            ck.content("gradients", where, what, g, pt.reader(g), b + c.Np, rd)
            strict(ck, where, what, g, a)
        elif kind[0] == "source":
            gr = "grad_" + kind[1]
            sfx = sfxof(cfg, kind[1])
            und = (lambda i, sfx=sfx: t.b_not(spec.ignored("source_locations" + sfx, i[1], i[2]))) \
                if cfg.ignores("source_locations" + sfx) else None
            ck.content("gradients", where, what, g, pt.reader(g), [spec.nt, spec.ns, c.nsrc[sfx].p],
                       lambda i, gr=gr: fatom("gf", gr, *i), under=und)
            strict(ck, where, what, g, a)
        else:
            f = byapi[kind[1]]
            sg = -1 if f.role in ("wfp", "wfpsc") else 1
            ck.content("gradients", where, what, g, pt.reader(g), [spec.ns] + lo,
                       lambda i, f=f, sg=sg: t.ite(c.live(f, uncrop(cfg, i[1:])), P(sg) * fatom(
                           "bw", f.role, P(0), i[0], *uncrop(cfg, i[1:])), P(0)))
    for kind in sorted(left):
        want = {"model": cfg.model_wants, "field": cfg.wants,
                "source": lambda r: cfg.wants("source_amplitudes" + sfxof(cfg, r))}[kind[0]]
        if want(kind[1]):
            ck.fail("gradients", where, "%s %s" % kind, "the tensor given to the compiled code is not an input of "
                    "%s that needs a gradient" % cls.name)


def sfxof(cfg, role):
    return "" if role == "fsc" else [x[0] for x in cfg.src if x[1] == role][0]


def strict(ck, where, what, g, a):
    if len(g.shape) != len(a.shape) or not all(
            pyeq.differs(ck.path, pk(x)[0], pk(y)[0]) is None for x, y in zip(g.shape, a.shape)):
        ck.fail("gradients", where, what, "has shape %s, its input has shape %s" % (list(g.shape), list(a.shape)))


def _base(x):
    if x is None:
        return None
    r = x.root().st
    return getattr(r, "copy_of", None) or r


def sum_(xs):
    o = P(0)
    for x in xs:
        o = o + x
    return o


# ---------------------------------------------------------------------- driver
def drive(rep, rules, limit=150, back=True, args_once=True, **kw):
    cfg = Cfg(**kw)
    PROVED.clear()
    n = 0

    def post(cs, out):
        ck = Checker(cs, rep, rules)
        sp = Spec(cs)
        it = cs.it
        calls = list(it.calls)
        if cfg.ratio != 1:
            # cases the reference distinguishes hold for the whole path
            z = [A("ix", "case")] * 3
            for sfx, role, li, m in cfg.src[:1]:
                sp.amp(sfx, *z)
            for name, role, li, m in cfg.rec[:1]:
                sp.receiver(role, name, *z)
        where = "deepwave.%s.%s" % (cfg.prop, cfg.prop)
        if not calls:
            ck.fail("sequence", where, cfg.prop, "no compiled call is made")
            return
        sequence(ck, sp, calls, False)
        T = P(0)
        for call in calls:
            if call.prop != cfg.prop or call.ndim != cfg.ndim or call.acc != cfg.acc or call.pas != "forward" or \
                    call.device != ("cuda" if cfg.cuda else "cpu") or \
                    call.dtype != ("float" if cfg.dtype == "float32" else "double"):
                ck.fail("abi", call.where, call.name, "is not the propagator that was asked for")
                continue
            forward_args(ck, sp, call, T)
            bounds(ck, sp, call, margin(cfg, "forward"))
            threads(ck, call)
            storage(ck, sp, call)
            T = T + call.num("nt")
        if cfg.callbacks:
            callbacks(ck, sp, cs.seen, calls, "forward")
        outputs(ck, sp, out, where)
        cfl(ck, sp, where)
        intact(ck, [("the input %s" % n, x, 0) for n, x in cs.inp.items()], "inputs", "by the forward call")
        mine = {id(x.root().st): n for n, x in cs.inp.items()}
        for k, o in enumerate(out if isinstance(out, (list, tuple)) else [out]):
            if "inputs" in rules and isinstance(o, pt.T):
                n = mine.get(id(o.root().st))
                if n:
                    ck.fail("inputs", where, "output %d" % k, "shares its memory with the input %s" % n)
                else:
                    rep.ok("inputs")
        if back and cfg.rg:
            for ev in [e for e in it.events if e[0] == "apply"]:
                backward(ck, sp, ev, calls[0])
            intact(ck, [("the input %s" % n, x, 0) for n, x in cs.inp.items()], "inputs", "by backpropagation")
    for path, case, kind, v in run(cfg, post, limit, geff.Effects):
        n += 1
        if kind == "raise":
            rep.fail("accepted", v.where, "deepwave.%s" % cfg.prop, "%s: valid input is refused: %s" % (
                cfg.label(), getattr(v, "text", v)))
    return n
