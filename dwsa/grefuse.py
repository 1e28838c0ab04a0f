"""Invalid inputs never reach compiled code.

Every mutation makes one input of an otherwise valid, fully symbolic call
invalid (at one symbolic witness element where an element is to blame). No
path of the public function may then reach a compiled entry point."""
import time
from fractions import Fraction

from . import pytensor as pt
from . import terms as t
from .glue import Case, Cfg, Native, tin, it_add, pk, IGN
from .pyfacts import integer, real, mk, explore, is_int
from .pyint import PyRaise
from .terms import A, P


DEBUG = False


class Reached(Exception):
    pass


class Bad(Case):
    """A valid case with one invalid input."""

    def __init__(self, cfg, path, shared, mutate):
        self.witness = None
        self.dup = None
        self.noted = set()
        Case.__init__(self, cfg, path, shared)
        path.hints.insert(0, self.note)
        mutate(self)

    # -- facts that follow from the witness element -----------------------
    def hint(self, b):
        if self.dup and b[0] == "eq" and any(t.key(a)[0] == "nunique" for a in b[1].atoms()):
            for a in b[1].atoms():
                k = t.key(a)
                if k[0] == "nunique" and self.same(k[1]):
                    return False
        return Case.hint(self, b)

    def same(self, body):
        """Does the set whose size is taken hold two equal locations?"""
        vals = []
        for w in self.dup[1]:
            v = self.at(body, self.dup[0], w)
            if v is None:
                return False
            vals.append(v)
        return vals[0] == vals[1]

    def note(self, b):
        if b[0] not in ("lt", "eq") or not self.witness:
            return None
        name, w = self.witness
        for a in list(b[1].atoms()):
            k = t.key(a)
            if (k[0] == "red" and k[1] in ("max", "min")) and a not in self.noted:
                self.noted.add(a)
                v = self.at(k[3], name, w)
                if v is not None:
                    R = A(*k)
                    self.fact(R - v if k[1] == "max" else v - R)
            elif k[0] == "count" and a not in self.noted:
                self.noted.add(a)
                v = self.truth(k[1], name, w)
                if v is True:
                    self.fact(A(*k) - 1)
        if b[0] == "eq" and b[1].single() is not None:
            k = t.key(b[1].single())
            if k[0] == "red" and k[1] in ("any", "all"):
                v = self.at(k[3], name, w)
                v = v.const() if v is not None else None
                if v == 1 and k[1] == "any":
                    return True
                if v == 0 and k[1] == "all":
                    return False
        return None

    def fact(self, p):
        self.path._memo.clear()
        self.path.facts.append(p)
        if not is_int(p):
            self.path.strict.append(p + P(Fraction(1, 1000)))

    def at(self, body, name, w):
        """Value of a quantified body at the witness element, if it is there."""
        a = body.single()
        k = t.key(a) if a is not None else None
        if k and k[0] == "sel":
            if self.truth(k[2], name, w) is not True:
                return None
            return self.at(k[1], name, w)
        m = {}
        if not (find(body, name, w, m) and self.reaches(m)):
            return None
        return Sub(m, self.path).poly(body)

    def truth(self, b, name, w):
        if b in (t.T, t.F):
            return b == t.T
        m = {}
        if not (find(b, name, w, m) and self.reaches(m)):
            return None
        r = Sub(m, self.path).b(b)
        return True if r == t.T else False if r == t.F else self.path.prove(r)


    def reaches(self, m):
        """The loop variables bound in m take these values in some iteration."""
        loops = {a: v for a, v in m.items() if t.key(a)[0] == "py"}
        if not loops:
            return True
        sub = Sub(loops, None)
        return all(self.path.nonneg(sub.poly(f)) for f in list(self.path.facts)
                   if any(a in loops for a in f.atoms()))


class Sub(t.Subst):
    def __init__(self, m, path):
        t.Subst.__init__(self, m)
        self.lit = path.prove if path else None

    def at(self, a):
        if a in self.amap:
            return self.amap[a]
        k = t.key(a)
        if k[0] == "in" and a not in self.am:
            args = [self.poly(x) if isinstance(x, t.Poly) else x for x in k[2:]]
            r = A(*(k[:2] + tuple(args)))
            self.am[a] = None if r.single() == a else r
            return self.am[a]
        if k[0] in ("trunc", "fdiv", "abs", "min") and a not in self.am:
            args = [self.poly(x) for x in k[1:]]
            v = args[0].const()
            if k[0] == "trunc" and v is not None:
                r = P(int(v))
            elif k[0] == "abs" and v is not None:
                r = P(abs(v))
            else:
                r = A(k[0], *args)
            self.am[a] = None if r.single() == a else r
            return self.am[a]
        return t.Subst.at(self, a)


def find(x, name, w, m):
    """Binds the placeholders of the first use of input name in x to w."""
    if isinstance(x, t.Poly):
        for a in sorted(x.atoms()):
            k = t.key(a)
            if k[0] == "in" and k[1] == name:
                trial = {}
                for p, v in zip(k[2:], w):
                    if v is None:
                        continue
                    q = p.single()
                    if q is not None and t.key(q)[0] in ("bv", "ix") or q is not None and str(t.key(q)[1]).startswith("loop:"):
                        trial[q] = v
                    elif p.const() is not None and v.const() is not None and p.const() != v.const():
                        break
                    elif p.const() is None or v.const() is None:
                        if p != v:
                            break
                else:
                    m.update(trial)
                    return True
            if any(find(y, name, w, m) for y in k[1:]):
                return True
        return False
    if isinstance(x, (tuple, frozenset, list)):
        return any(find(y, name, w, m) for y in x)
    return False


# ------------------------------------------------------------------ mutations
def extra(c, tag="x"):
    """A positive integer."""
    k = integer("extra_" + tag)
    c.path.nonneg_atom(k, 1)
    return k


def reshape(c, name, f):
    x = c.inp[name]
    put(c, name, tin(c.it, name, f(list(x.shape)), x.dtype, rg=x.rg))


def put(c, name, x):
    c.inp[name] = x
    if name in c.kw:
        c.kw[name] = x
    else:
        c.args[c.cfg.models.index(name)] = x


def longer(name, d):
    def go(c):
        def f(sh):
            sh[d] = it_add(c.it, sh[d], extra(c))
            return sh
        reshape(c, name, f)
    return "%s is too long in dimension %d" % (name, d), go


def shorter(name, d):
    def go(c):
        def f(sh):
            k = extra(c)
            c.path.facts.append(pk(sh[d])[0] - k.p - 1)
            sh[d] = mk(pk(sh[d])[0] - k.p, "i")
            return sh
        reshape(c, name, f)
    return "%s is too short in dimension %d" % (name, d), go


def fewer_dims(name):
    return "%s lacks a dimension" % name, lambda c: reshape(c, name, lambda sh: sh[1:])


def more_dims(name):
    return "%s has a surplus dimension" % name, lambda c: reshape(c, name, lambda sh: [2] + sh)


def exchanged(name, a, b):
    def go(c):
        def f(sh):
            c.path.facts.append(pk(sh[a])[0] - pk(sh[b])[0] - 1)
            sh[a], sh[b] = sh[b], sh[a]
            return sh
        reshape(c, name, f)
    return "dimensions %d and %d of %s are exchanged" % (a, b, name), go


def other_type(name):
    def go(c):
        x = c.inp[name]
        d = "float64" if c.cfg.dtype == "float32" else "float32"
        put(c, name, tin(c.it, name, list(x.shape), pt.DTYPES[d], rg=x.rg))
    return "%s has another floating type" % name, go


def other_device(name):
    def go(c):
        x = c.inp[name]
        y = tin(c.it, name, list(x.shape), x.dtype, rg=x.rg)
        y.st.device = pt.CPU if c.cfg.cuda else pt.CUDA
        put(c, name, y)
    return "%s is on another device" % name, go


def setkw(name, val, what):
    def go(c):
        v = val(c) if callable(val) else val
        if v is DROP:
            del c.kw[name]
        else:
            c.kw[name] = v
    return what, go


DROP = object()


def outside(name, j, side, layer=1):
    """One location of one shot lies outside the model."""
    def go(c):
        d = c.cfg.dims[j]
        s, k = integer("bad_shot"), integer("bad_location")
        for v, n in ((s, c.ns), (k, c.inp[name].shape[1])):
            c.path.nonneg_atom(v, 0)
            c.path.facts.append(pk(n)[0] - v.p - 1)
        x = integer("bad_excess")
        c.path.nonneg_atom(x, 0)
        if side == "high":
            v = pk(c.o[d])[0] + pk(c.e[d])[0] - layer + 1 + x.p
        else:
            c.path.facts.append(P((1 << 31) - 2) - x.p)
            v = pk(c.o[d])[0] - 1 - x.p
        if layer == 2:
            c.path.facts.append(-x.p)
        w = [s.p, k.p, P(j)]

        def elem(idx, p):
            if idx[2].const() is not None and idx[2].const() != j:
                return p
            return t.ite(t.b_and(*[t.b_eq0(i - y) for i, y in zip(idx, w)]), v, p)
        y = c.inp[name]
        put(c, name, tin(c.it, name, list(y.shape), y.dtype, elem=elem))
        c.witness = (name, w)
    return "a location of %s is %s the model in %s" % (
        name, "below" if side == "low" else "above" if layer == 1 else "in the half cell above", "dimension %d" % j), go


def masked(name, other, mut):
    """The mutation in a call where every location of another list is ignored."""
    def go(c):
        y = c.inp[other]
        put(c, other, tin(c.it, other, list(y.shape), y.dtype, elem=lambda idx, p: P(IGN)))
        mut(c)
        for l in [k for k in c.kw if "locations" in k]:
            if l not in (name, other):
                del c.kw[l]
                c.kw.pop(l.replace("locations", "amplitudes"), None)
    return go


def fractional(name):
    def go(c):
        y = c.inp[name]
        s, k = integer("bad_shot"), integer("bad_location")
        for v, n in ((s, c.ns), (k, y.shape[1])):
            c.path.nonneg_atom(v, 0)
            c.path.facts.append(pk(n)[0] - v.p - 1)
        w = [s.p, k.p, P(0)]

        def elem(idx, p):
            return t.ite(t.b_and(*[t.b_eq0(i - z) for i, z in zip(idx, w)]), P(Fraction(1, 2)), p)
        put(c, name, tin(c.it, name, list(y.shape), pt.DTYPES["float32"], elem=elem))
        c.witness = (name, w)
    return "a location of %s is half way between cells" % name, go


def twice(name, shot):
    """Two locations of a shot coincide."""
    def go(c):
        y = c.inp[name]
        c.path.facts.append(pk(y.shape[1])[0] - 2)
        c.path.facts.append(pk(c.ns)[0] - 1 - shot)

        def elem(idx, p):
            q = A("in", name, idx[0], P(0), idx[2])
            return t.ite(t.b_and(t.b_eq0(idx[0] - shot), t.b_eq0(idx[1] - 1)), q, p)
        put(c, name, tin(c.it, name, list(y.shape), y.dtype, elem=elem))
        c.dup = (name, [[P(shot), P(0), None], [P(shot), P(1), None]])
    return "two locations of %s coincide in shot %d" % (name, shot), go


def minus(c):
    x = integer("neg")
    c.path.nonneg_atom(x, 1)
    return mk(-x.p, "i")


def rneg(c):
    x = real("rneg")
    c.path.positive(x)
    return mk(-x.p, "f")


def replace(seq, i, v):
    def f(c):
        o = list(c.kw[seq])
        o[i] = v(c) if callable(v) else v
        return o
    return f


def mutations(cfg):
    """Groups of (what, mutation)."""
    G = {}
    nd = cfg.ndim
    dims = range(nd)
    m = G["models"] = []
    for name in cfg.models[1:]:
        for d in dims:
            m += [longer(name, d - nd), shorter(name, d - nd)]
        if nd > 1:
            m += [exchanged(name, -1, -2)]
        m += [other_type(name), other_device(name)] + ([] if cfg.batched else [fewer_dims(name)])
    if cfg.batched:
        for name in cfg.models:
            m += [longer(name, 0)]
    amps = ["source_amplitudes" + s for s, _, _, _ in cfg.src]
    locs = ["source_locations" + s for s, _, _, _ in cfg.src]
    recs = [r[0] for r in cfg.rec]
    m = G["amplitudes"] = []
    for a, l in zip(amps, locs):
        m += [(w, alone(l, f)) for w, f in (longer(a, 0), longer(a, 1), shorter(a, 1), fewer_dims(a), other_type(a),
                                            other_device(a))]
        m += [setkw(a, DROP, "%s without %s" % (l, a)), setkw(l, DROP, "%s without %s" % (a, l))]
        if len(amps) > 1:
            m += [longer(a, 2), shorter(a, 2)]
    m = G["locations"] = []
    for l in locs + recs:
        whole = m
        whole += [longer(l, 0), longer(l, 2), fewer_dims(l)]
        m = []
        if nd > 1:
            m += [shorter(l, 2)]
        for j in dims:
            m += [outside(l, j, "high"), outside(l, j, "low")]
        m += [fractional(l)]
        m += [twice(l, 0), twice(l, 1)]
        o = locs[0] if l != locs[0] else recs[0]
        for side in ("high", "low"):
            w, f = outside(l, nd - 1, side)
            m += [(w + " and all of %s are ignored" % o, masked(l, o, f))]
        comp = l.split("locations")[1].strip("_")
        if cfg.staggered and comp in cfg.dims:
            m += [outside(l, cfg.dims.index(comp), "high", 2)]
        m = whole + [(w, alone(l, f)) for w, f in m]
    G["locations"] = m
    if cfg.wavefields:
        m = G["wavefields"] = []
        for f in cfg.fields:
            for d in range(nd + 1):
                m += [longer(f.api, d)]
            if nd > 1:
                m += [exchanged(f.api, -1, -2)]
            m += [shorter(f.api, nd), fewer_dims(f.api), other_type(f.api), other_device(f.api)]
    if cfg.region == "origin":
        m = G["region"] = []
        for l in locs + recs:
            for j in dims:
                for w, f in (outside(l, j, "high"), outside(l, j, "low")):
                    w = w.replace("the model", "the region with an origin")
                    m += [(w, alone(l, f))]
                    o = locs[0] if l != locs[0] else recs[0]
                    m += [(w + " and all of %s are ignored" % o, masked(l, o, f))]
        more = [setkw("origin", lambda c: c.kw["origin"] + [0], "a surplus origin coordinate"),
                setkw("origin", lambda c: c.kw["origin"][1:], "a missing origin coordinate"),
                setkw("survey_pad", 0, "both an origin and survey_pad")]
        for j, d in enumerate(cfg.dims):
            more += [setkw("origin", replace("origin", j, minus), "a negative origin"),
                     setkw("origin", replace("origin", j, 0.5), "a fractional origin"),
                     setkw("origin", replace("origin", j, lambda c, d=d: it_add(
                         c.it, c.n[d], mk(-pk(c.e[d])[0], "i"), extra(c))), "a region beyond the end of the model")]
        m += [(w, alone(None, f)) for w, f in more]
    m = G["scalars"] = [
        setkw("survey_pad", minus, "a negative survey_pad"),
        setkw("survey_pad", [0] * (2 * nd + 1), "a surplus survey_pad"),
        setkw("survey_pad", [0] * (2 * nd - 1), "a missing survey_pad"),
        setkw("accuracy", 3, "an odd accuracy"), setkw("accuracy", 0, "accuracy zero"),
        setkw("accuracy", 10, "accuracy ten"),
        setkw("grid_spacing", lambda c: c.kw["grid_spacing"] + [c.h[c.cfg.dims[0]]], "a surplus grid spacing"),
        setkw("pml_width", lambda c: c.kw["pml_width"] + [1], "a surplus absorbing width"),
        setkw("pml_freq", rneg, "a negative absorbing frequency"),
        setkw("dt", 0.0, "a zero time step"),
        setkw("max_vel", 0.0, "a zero maximum speed"),
        setkw("nt", lambda c: it_add(c.it, c.nt, extra(c)), "a number of steps that is not that of the amplitudes"),
        setkw("model_gradient_sampling_interval", minus, "a negative gradient sampling interval"),
        setkw("freq_taper_frac", rneg, "a negative frequency taper"),
        setkw("freq_taper_frac", 1.5, "a frequency taper above one"),
        setkw("time_pad_frac", rneg, "a negative time padding"),
        setkw("time_pad_frac", 1.5, "a time padding above one"),
        setkw("storage_mode", "memory", "an unknown storage mode"),
        setkw("python_backend", "numpy", "an unknown Python backend"),
        setkw("python_backend", 1, "a Python backend of a wrong type"),
        setkw("callback_frequency", 0, "a zero callback frequency"),
        setkw("callback_frequency", minus, "a negative callback frequency"),
        setkw("callback_frequency", 1.5, "a fractional callback frequency"),
    ]
    for i in dims:
        m += [setkw("grid_spacing", replace("grid_spacing", i, 0.0), "a zero grid spacing"),
              setkw("grid_spacing", replace("grid_spacing", i, rneg), "a negative grid spacing")]
    for i in range(2 * nd):
        m += [setkw("survey_pad", lambda c, i=i: [None] * i + [minus(c)] + [None] * (2 * nd - 1 - i),
                    "a negative survey_pad"),
              setkw("survey_pad", [0] * i + [1.5] + [0] * (2 * nd - 1 - i), "a fractional survey_pad")]
        m += [setkw("pml_width", replace("pml_width", i, minus), "a negative absorbing width")]
    if nd > 1:
        m += [setkw("grid_spacing", lambda c: c.kw["grid_spacing"][1:] if nd > 2 else
                    c.kw["grid_spacing"] + c.kw["grid_spacing"][:1], "a wrong number of grid spacings"),
              setkw("pml_width", lambda c: c.kw["pml_width"][1:], "a wrong number of absorbing widths")]
    for g in ("models", "scalars", "wavefields"):
        if g in G:
            G[g] = [(w, alone(None, f)) for w, f in G[g]]
    return G


def alone(name, mut):
    """The mutation in a call without the other location lists."""
    def go(c):
        mut(c)
        src = name if name and name.startswith("source") else "source_locations" + c.cfg.src[0][0]
        name_ = name or c.cfg.rec[0][0]
        for l in [k for k in c.kw if "locations" in k]:
            if l not in (name_, src):
                del c.kw[l]
                c.kw.pop(l.replace("locations", "amplitudes"), None)
    return go


def valid(c):
    """No mutation."""


# ---------------------------------------------------------------------- driver
def drive(rep, group, limit=150, only=None, part=None, **kw):
    cfg = Cfg(**kw)
    where0 = "deepwave.%s.%s" % (cfg.prop, cfg.prop)
    todo = list(mutations(cfg).get(group, ()))
    if part:
        todo = todo[part[0]::part[1]]
    for what, mut in [(None, alone(None, valid))] + todo:
        if only and what and only not in what:
            continue
        shared = set()
        t0 = time.time()

        def go(path):
            cs = Bad(cfg, path, shared, mut)

            def stop(it, call):
                raise Reached(call)
            cs.it.kmodel = stop
            mod = cs.it.module("deepwave." + cfg.prop)
            try:
                cs.it.call(mod.d[cfg.prop], cs.args, cs.kw)
            except PyRaise as e:
                return "raise", e
            except Reached as e:
                return "call", e.args[0]
            return "end", None
        try:
            res = explore(go, None, limit)
        except Exception as e:
            rep.notes.append("NOT-ANALYSED %s: %s: %s: %s" % (cfg.label(), what, type(e).__name__, e))
            continue
        if DEBUG:
            print("%.1f" % (time.time() - t0), what, [getattr(v, "text", v) for p, k, v in res][:3])
        if what is None:
            if not any(k == "call" for p, k, v in res):
                rep.fail("accepted", where0, where0, "%s: valid input never reaches the compiled code" % cfg.label())
            continue
        bad = [(p, v) for p, k, v in res if k != "raise"]
        if bad:
            p, v = bad[0]
            rep.fail("refused", v.where if v is not None else where0, where0, "%s: %s, yet %s" % (
                cfg.label(), what, "compiled code is called" if v is not None else "the call completes"))
        else:
            rep.ok("refused")
