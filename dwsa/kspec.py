"""The documented discretisation, written down independently of the kernels.

Every spec function returns rows {name: polynomial}, the next state and the
recorded samples of one time step as a linear map of the current state, over
atoms ('v', array, 0, offsets, rest), on a cell where every dimension absorbs.
"""
from fractions import Fraction

from .ksum import dims_of, ngrid
from .terms import *
from .terms import key as akey
from .ksem import vshift, cls


def solve(n, rows, rhs):
    """Exact Gaussian elimination."""
    m = [list(map(Fraction, r)) + [Fraction(b)] for r, b in zip(rows, rhs)]
    for i in range(n):
        p = next(r for r in range(i, n) if m[r][i] != 0)
        m[i], m[p] = m[p], m[i]
        d = m[i][i]
        m[i] = [x / d for x in m[i]]
        for r in range(n):
            if r != i and m[r][i] != 0:
                f = m[r][i]
                m[r] = [a - f * b for a, b in zip(m[r], m[i])]
    return [r[-1] for r in m]


def taylor(offsets, order):
    """Weights w with sum w_k f(x + o_k h) = h^order f^(order)(x) exactly to degree len-1."""
    n = len(offsets)
    rows = [[Fraction(o) ** j for o in offsets] for j in range(n)]
    fact = 1
    for i in range(2, order + 1):
        fact *= i
    rhs = [fact if j == order else 0 for j in range(n)]
    return solve(n, rows, rhs)


def centred(acc, order):
    h = acc // 2
    offs = list(range(-h, h + 1))
    return {o: c for o, c in zip(offs, taylor(offs, order)) if c != 0}


def staggered(acc, half):
    """First derivative from samples half a cell away.

    half=True : full-grid samples -> value at X+1/2 (offsets 1-h .. h)
    half=False: half-grid samples (index i is i+1/2) -> value at X (offsets -h .. h-1)
    """
    h = acc // 2
    if half:
        offs = list(range(1 - h, h + 1))
        pos = [Fraction(2 * o - 1, 2) for o in offs]
    else:
        offs = list(range(-h, h))
        pos = [Fraction(2 * o + 1, 2) for o in offs]
    return dict(zip(offs, taylor(pos, 1)))


class B:
    """Builder of spec polynomials."""

    def __init__(self, ndim, acc, flags):
        self.nd, self.acc, self.flags = ndim, acc, flags
        self.dims = dims_of(ndim)
        self.ng = ngrid(ndim)
        self.shot = A("lv", "SHOT") * self.ng
        self.c1, self.c2 = centred(acc, 1), centred(acc, 2)
        self.sh = {True: staggered(acc, True), False: staggered(acc, False)}

    def zero(self):
        return (0,) * self.nd

    def f(self, name):
        return A("v", name, 0, self.zero(), self.shot)

    def model(self, name, flag):
        r = self.shot if self.flags.get(flag + "_batched") else ZERO
        return A("v", name, 0, self.zero(), r)

    def line(self, name, d):
        o = tuple(0 if x == d else None for x in self.dims)
        return A("v", name, 0, o, ZERO)

    def off(self, d, k):
        return tuple(k if x == d else 0 for x in self.dims)

    def diff(self, p, coefs, d, scale):
        out = ZERO
        for k, c in coefs.items():
            out = out + vshift(p, self.off(d, k)) * P(c)
        return out * A("p", scale)

    def D1(self, p, d):
        return self.diff(p, self.c1, d, "rd" + d)

    def D2(self, p, d):
        return self.diff(p, self.c2, d, "rd%s2" % d)

    def DS(self, p, d, half):
        return self.diff(p, self.sh[half], d, "rd" + d)

    def amp(self, name, loc):
        return A("v", name + "@" + loc, 0, self.zero(), self.shot)


def wave(b, sfx, rows):
    """Second-order wave equation with the unsplit absorbing layer: sum of second derivatives."""
    w = b.f("wfc" + sfx)
    tot = ZERO
    for d in b.dims:
        a, bb, db = b.line("a" + d, d), b.line("b" + d, d), b.line("db%sd%s" % (d, d), d)
        psi, zeta = b.f("psi" + d + sfx), b.f("zeta" + d + sfx)
        tmp = (ONE + bb) * b.D2(w, d) + db * b.D1(w, d) + b.D1(a * psi, d)
        tot = tot + (ONE + bb) * tmp + a * zeta
        rows["psi" + d + sfx] = a * psi + bb * b.D1(w, d)
        rows["zeta" + d + sfx] = a * zeta + bb * tmp
    return tot


def scalar(b):
    rows = {}
    v = b.model("v", "v")
    tot = wave(b, "", rows)
    rows["wfc"] = v * v * A("p", "dt2") * tot + b.f("wfc") * P(2) - b.f("wfp") + b.amp("f", "sources_i")
    rows["wfp"] = b.f("wfc")
    rows["r@receivers_i"] = b.f("wfc")
    return rows, {"w": v * P(2) * A("p", "dt2") * tot}


def scalar_born(b):
    rows = {}
    v, s = b.model("v", "v"), b.model("scatter", "scatter")
    dt2 = A("p", "dt2")
    t0 = wave(b, "", rows)
    t1 = wave(b, "sc", rows)
    rows["wfc"] = v * v * dt2 * t0 + b.f("wfc") * P(2) - b.f("wfp") + b.amp("f", "sources_i")
    # derivative of the background update along v -> v + s, background -> background + scattered
    rows["wfcsc"] = v * v * dt2 * t1 + P(2) * v * s * dt2 * t0 + b.f("wfcsc") * P(2) - b.f("wfpsc") + \
        b.amp("fsc", "sources_i")
    rows["wfp"], rows["wfpsc"] = b.f("wfc"), b.f("wfcsc")
    rows["r@receivers_i"] = b.f("wfc")
    rows["rsc@receiverssc_i"] = b.f("wfcsc")
    return rows, {}


def acoustic(b):
    rows = {}
    dt = A("p", "dt")
    k = b.model("k", "k")
    vnew = {}
    for d in b.dims:
        ah, bh = b.line("a%sh" % d, d), b.line("b%sh" % d, d)
        psi = ah * b.f("psi_" + d) + bh * b.DS(b.f("p"), d, True)
        rows["psi_" + d] = psi
        vnew[d] = b.f("v" + d) - dt * b.model("buoyancy_" + d, "b") * (b.DS(b.f("p"), d, True) + psi) + \
            b.amp("f_v" + d, "sources_i_v" + d)
        rows["v" + d] = vnew[d]
        rows["r_v%s@receivers_i_v%s" % (d, d)] = b.f("v" + d)
    tot = ZERO
    for d in b.dims:
        a, bb = b.line("a" + d, d), b.line("b" + d, d)
        phi = a * b.f("phi_" + d) + bb * b.DS(vnew[d], d, False)
        rows["phi_" + d] = phi
        tot = tot + b.DS(vnew[d], d, False) + phi
    rows["p"] = b.f("p") - dt * k * tot + b.amp("f_p", "sources_i_p")
    rows["r_p@receivers_i_p"] = b.f("p")
    return rows, {}


def elastic(b):
    rows = {}
    dt = A("p", "dt")
    lam, mu = b.model("lamb", "lamb"), b.model("mu", "mu")

    def sig(i, j):
        # sigma_xy: the larger-stride dimension comes second (x before y before z)
        o = "xyz"
        return "sigma" + (i + j if o.index(i) <= o.index(j) else j + i)

    def muname(i, j):
        o = "zyx"
        return "mu_" + (i + j if o.index(i) < o.index(j) else j + i)
    vnew = {}
    for i in b.dims:
        acc = ZERO
        for j in b.dims:
            s = b.f(sig(i, j))
            if i == j:
                a, bb, half = b.line("a%sh" % j, j), b.line("b%sh" % j, j), True
            else:
                a, bb, half = b.line("a" + j, j), b.line("b" + j, j), False
            m = "m_" + sig(i, j) + j
            mv = a * b.f(m) + bb * b.DS(s, j, half)
            rows[m] = mv
            acc = acc + b.DS(s, j, half) + mv
        vnew[i] = b.f("v" + i) + dt * b.model("buoyancy_" + i, "buoyancy") * acc + \
            b.amp("f_" + i, "sources_%s_i" % i)
        rows["v" + i] = vnew[i]
        rows["r_%s@receivers_%s_i" % (i, i)] = b.f("v" + i)
    e = {}
    for i in b.dims:
        a, bb = b.line("a" + i, i), b.line("b" + i, i)
        m = "m_v%s%s" % (i, i)
        mv = a * b.f(m) + bb * b.DS(vnew[i], i, False)
        rows[m] = mv
        e[i] = b.DS(vnew[i], i, False) + mv
    tr = ZERO
    for i in b.dims:
        tr = tr + e[i]
    for i in b.dims:
        rows[sig(i, i)] = b.f(sig(i, i)) + dt * (lam * tr + P(2) * mu * e[i]) + b.amp("f_p", "sources_p_i")
    rows["r_p@receivers_p_i"] = ZERO
    for i in b.dims:
        rows["r_p@receivers_p_i"] = rows["r_p@receivers_p_i"] + b.f(sig(i, i))
    for x in range(len(b.dims)):
        for y in range(x + 1, len(b.dims)):
            i, j = b.dims[x], b.dims[y]
            sh = ZERO
            for p, q in ((i, j), (j, i)):
                a, bb = b.line("a%sh" % q, q), b.line("b%sh" % q, q)
                m = "m_v%s%s" % (p, q)
                mv = a * b.f(m) + bb * b.DS(vnew[p], q, True)
                rows[m] = mv
                sh = sh + b.DS(vnew[p], q, True) + mv
            rows[sig(i, j)] = b.f(sig(i, j)) + dt * b.model(muname(i, j), "mu") * sh
    return rows, {}


SPEC = {"scalar": scalar, "scalar_born": scalar_born, "acoustic": acoustic, "elastic": elastic}
