"""Configurations of the Python layer over which each G property is decided."""
from . import gdrive

PROPS = ("elastic", "acoustic", "scalar_born", "scalar")
SRC = {"scalar": "source_amplitudes", "scalar_born": "source_amplitudes", "acoustic": "source_amplitudes_x",
       "elastic": "source_amplitudes_x"}
RG = {"scalar": [{"v"}, {"source_amplitudes"}, {"psix_m1"}],
      "scalar_born": [{"v"}, {"scatter"}, {"source_amplitudes"}, {"psix_sc_m1", "scatter"}],
      "acoustic": [{"v"}, {"rho"}, {"source_amplitudes_p", "vx_0"}, {"source_amplitudes_x"}],
      "elastic": [{"lamb"}, {"mu"}, {"buoyancy"}, {"source_amplitudes_p", "m_vxx_0"}, {"source_amplitudes_x"}]}

IGN = {"scalar": {"source_locations", "receiver_locations"},
       "scalar_born": {"source_locations", "receiver_locations"},
       "acoustic": {"source_locations_p", "receiver_locations_x"},
       "elastic": {"source_locations_x", "receiver_locations_p"}}
COST = {"scalar": 1, "scalar_born": 1.3, "acoustic": 2, "elastic": 2.5}
CONFS = {
    "plain": {},
    "full": dict(batched=True, wavefields=True, ign=True),
    "bw": dict(batched=True, wavefields=True),
    "ign": dict(ign=True),
    "cuda": dict(cuda=True),
    "sub": dict(ratio="R"),
    "subfull": dict(ratio="R", ign=True, wavefields=True),
    "sparse": dict(mgsi="M"),
    "subsparse": dict(ratio="R", mgsi="M", batched=True),
    "cb": dict(callbacks=True),
    "cpu": dict(mode="cpu", comp=True),
    "cudacpu": dict(mode="cpu", cuda=True),
    "cudacpuc": dict(mode="cpu", cuda=True, comp=True),
    "disk": dict(mode="disk"),
    "diskc": dict(mode="disk", comp=True, dtype="float64"),
    "cudadisk": dict(mode="disk", cuda=True),
    "cudadiskc": dict(mode="disk", cuda=True, comp=True),
    "comp": dict(comp=True),
    "none": dict(mode="none"),
    "zero": dict(zero_pml=(("y", 0), ("x", 1))),
    "vmax": dict(ratio="R", vmax=True),
    "taper_t": dict(ratio="R", taper=("t",)),
    "taper_f": dict(ratio="R", taper=("f",)),
    "taper_p": dict(ratio="R", taper=("p",)),
    "taper_ptf": dict(ratio="R", taper=("p", "f", "t")),
    "subcb": dict(ratio="R", callbacks=True),
    "subcuda": dict(ratio="R", cuda=True),
    "fullcuda": dict(batched=True, wavefields=True, ign=True, cuda=True),
    "origin": dict(region="origin", wavefields=True),
    "double": dict(dtype="float64"),
}


def api(rep, prop, ndim, rules, name, kw):
    rep.unit("%s %dd %s" % (prop, ndim, name))
    gdrive.drive(rep, set(rules), prop=prop, ndim=ndim, **kw)


def jobs(rules, quick, thorough=(), props=PROPS, back=True):
    """quick/thorough: [(configuration, dimensions, accuracies)]."""
    rules = tuple(rules)

    def go(tier):
        out = []
        for conf in list(quick) + (list(thorough) if tier == "thorough" else []):
            name, dims, accs = conf
            for prop in props:
                for n in dims:
                    for a in accs:
                        if name == "rg":
                            for k, s in enumerate(RG[prop]):
                                kw = dict(rg=s, wavefields=True, acc=a, back=back)
                                out.append((prop, n, rules, "gradients of " + "+".join(sorted(s)), kw))
                            continue
                        kw = dict(CONFS[name], acc=a)
                        if name == "ign":
                            kw["ign"] = frozenset(IGN[prop])
                        if not back:
                            kw["back"] = False
                        if n == 1 and "zero_pml" in kw:
                            kw["zero_pml"] = (("x", 0),)
                        out.append((prop, n, rules, "%s accuracy %d" % (name, a), kw))

        def cost(j):
            c = COST[j[0]] * {1: 1, 2: 3, 3: 25}[j[1]]
            return c * (6 if j[4].get("callbacks") else 3 if j[4].get("ign") else 1)
        seen, uniq = set(), []
        for j in sorted(out, key=cost, reverse=True):
            if repr(j) not in seen:
                seen.add(repr(j))
                uniq.append((api, j))
        return uniq
    return go


def refused(rep, prop, ndim, group, kw, part):
    from . import grefuse
    rep.unit("%s %dd invalid %s%s" % (prop, ndim, group, " (%s)" % ", ".join(sorted(kw)) if kw else ""))
    grefuse.drive(rep, group, part=part, prop=prop, ndim=ndim, **kw)


def refuse_jobs(tier):
    out = []
    for prop in PROPS:
        for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
            w = dict(wavefields=True, batched=True)
            plan = [("models", {}, 1), ("models", dict(batched=True), 1), ("amplitudes", {}, 2),
                    ("locations", {}, 6 if n > 1 and prop in ("acoustic", "elastic") else 2), ("wavefields", w, 2), ("scalars", {}, 2),
                    ("region", dict(wavefields=True, region="origin"), 1)]
            if tier != "quick":
                plan += [("locations", dict(batched=True), 6), ("wavefields", dict(wavefields=True), 2),
                         ("scalars", dict(cuda=True, dtype="float64"), 2), ("amplitudes", dict(cuda=True), 2),
                         ("models", dict(cuda=True), 1)]
            for g, kw, k in plan:
                if g == "models" and prop == "scalar" and not kw:
                    continue
                for i in range(k):
                    out.append((COST[prop] * n * (3 if g == "locations" else 1), (prop, n, g, kw, (i, k))))
    return [(refused, j) for c, j in sorted(out, key=lambda x: -x[0])]
