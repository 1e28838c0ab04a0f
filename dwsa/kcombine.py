"""Gradients of concurrent shots are added to the returned gradient once."""
import re

from . import cabs, ksem, ksum, terms
from .krules import Unit, _walk
from .ksum import ngrid
from .terms import *
from .terms import key as akey

PAR = {"cpu": "n_threads", "cuda": "n_shots"}


def _lits(pc):
    return list(pc[1]) if pc[0] == "and" else [pc]


def _bounds(loops, lits, a):
    """(lo, hi) of an index atom: its loop's range or the tightest guard."""
    for l in loops:
        if getattr(l, "var", None) == a and l.kind == "loop":
            return l.lo, l.hi, l.step
    ub = [x for x in (ksum._ub(l, a) for l in lits) if x is not None]
    if len(ub) == 1:
        return ZERO, ub[0], 1
    return ZERO, None, 1


def _expand_red(v, allloops):
    """Turn scalar reductions into (plain part, [(term, loop)])."""
    plain = ZERO
    sums = []
    for mono, co in v.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and akey(mono[0][0])[0] == "red":
            k = akey(mono[0][0])
            inc = k[3] - k[4]
            if any(a in inc.atoms() for a in k[4].atoms()):
                return None
            plain = plain + k[2] * co
            lv = [l for l in allloops if l.var is not None and l.var in _deep(inc)]
            if len(lv) != 1:
                return None
            sums.append((inc * co, lv[0]))
        else:
            plain = plain + Poly({mono: co})
    return plain, sums


def _deep(p):
    out = set()
    for a in p.atoms():
        out.add(a)
        k = akey(a)
        if k[0] == "rd":
            out |= _deep(k[2])
    return out


def combine(rep, prop, ndim, acc, pas, device, dtype):
    u = Unit(prop, ndim, acc, pas, device, dtype, 0)
    k = u.k
    rep.unit(u.id)
    facts = k.facts
    ng = ngrid(ndim)
    roles = [r for r in ksem.ROLES["%s/%d/%s" % (prop, ndim, pas)] if r.endswith("_thread")]
    inloop = list(cabs.flat(k.tloop.body))
    inside = {id(w) for w in inloop}
    allw = [w for w in cabs.flat(k.effects) if id(w) not in inside]
    allloops = [e for e in _walk(k.effects) if e.kind == "loop"]
    npar = A("p", PAR[device])
    cells = u.ctx.cells()
    for t in roles:
        g = t[:-len("_thread")]
        con = "%s:%s" % (u.name, g)
        fl = "%s:%d" % (u.file, k.fn.line)
        rep.check(not [w for w in inloop if w.base == ("p", g)], "gradient-single-owner", fl, con,
                  "the shared gradient is written while shots run in parallel")
        tw = [w for w in inloop if w.base == ("p", t)]
        if not rep.check(bool(tw), "gradient-single-owner", fl, con, "%s is never accumulated" % t):
            continue
        req, bat = _flags(tw, t)
        gw = [w for w in allw if w.base == ("p", g)]
        if not rep.check(len(gw) == 1, "combined-once", "%s:%d" % (u.file, gw[-1].line if gw else k.fn.line), con,
                         "the gradient is combined by %d statements, expected one" % len(gw)):
            continue
        w = gw[0]
        where = "%s:%d" % (u.file, w.line)
        # when
        lits = _lits(w.pc)
        flagl = [l for l in lits if not any(akey(a)[0] == "lv" for a in ksum._pc_atoms(l))]
        want = {b_not(b_eq0(A("p", req))), b_eq0(A("p", bat))} if req and bat else set()
        many = b_not(b_lt0(npar - 2))
        rep.check(set(flagl) == want | {many} and bool(want), "combined-when", where, con,
                  lambda: "combined when %s; threads accumulate separately when %s" % (
                      bshow(b_and(*flagl)), bshow(b_and(many, *want))))
        # what
        ex = _expand_red(w.val, allloops) if isinstance(w.val, Poly) else None
        ok = False
        lw = None
        if ex is not None:
            plain, sums = ex
            own = [a for a in plain.atoms() if akey(a)[0] == "rd" and akey(a)[1] == w.base and akey(a)[2] == w.idx]
            rest = plain - Poly({((own[0], 1),): 1}) if len(own) == 1 else plain
            if not sums:
                loops = [l for l in w.loops if l.kind == "loop" and l.var is not None and l.var not in w.idx.atoms()]
                if len(loops) == 1:
                    sums, rest = [(rest, loops[0])], ZERO
            if rest == ZERO and len(sums) == 1:
                inc, lw = sums[0]
                s = inc.single()
                if s is not None and akey(s)[0] == "rd" and cabs_base(akey(s)[1]) == t:
                    lv = Poly({((lw.var, 1),): 1})
                    ok = akey(s)[2] == w.idx + ng * lv
        rep.check(ok, "combined-value", where, con,
                  lambda: "adds %s, expected the sum of every %s block at the same point" % (show(w.val), t))
        if lw is not None:
            rep.check(lw.lo == ZERO and lw.hi == npar and lw.step == 1, "combined-value", where, con,
                      lambda: "sums blocks %s to %s of %s" % (show(lw.lo), show(lw.hi) if lw.hi is not None else "?",
                                                             show(npar)))
        # where: the index covers every point that threads accumulate at
        for d, lo, hi in _covered(w, lits, ndim):
            his = [c for i, cell in cells for dd, c_, c in cell if dd == d]
            los = [c_ for i, cell in cells for dd, c_, c in cell if dd == d]
            used = [(c_, c) for i, cell in cells for dd, c_, c in cell if dd == d and u.ctx.table(cell).get(t)]
            if lo is None or hi is None:
                rep.fail("combined-range", where, con, "cannot bound the combined range along %s" % d)
                continue
            good = used and all(facts.le(lo, a) and facts.le(b, hi) for a, b in used)
            rep.check(bool(good), "combined-range", where, con,
                      lambda: "combines [%s, %s) along %s but threads accumulate outside it" % (show(lo), show(hi), d))
            n = A("p", "n" + d)
            rep.check(facts.le(ZERO, lo) and facts.le(hi, n), "combined-range", where, con,
                      lambda: "combined range [%s, %s) leaves the array along %s" % (show(lo), show(hi), d))
        # the blocks are emptied so that a later chunk does not add them again
        z = [x for x in allw if x.base == ("p", t)]
        okz = any(x.val == ZERO and lw is not None and _same_index(x, w, lw, ng) for x in z)
        rep.check(okz, "combined-cleared", where, con,
                  "the per-thread contributions stay in %s and are added again by the next chunk" % t)


def _same_index(x, w, lw, ng):
    """x clears block element w.idx + ng*l for some loop l over the same blocks."""
    d = x.idx - w.idx
    for l in x.loops:
        if l.kind == "loop" and l.var is not None and l.lo == lw.lo and l.hi == lw.hi:
            if d == ng * Poly({((l.var, 1),): 1}):
                return True
    return False


def cabs_base(b):
    n = ksum.base_name(b)
    return re.sub(r"@.*$", "", n) if isinstance(n, str) else n


def _flags(ws, t):
    """The flags under which threads accumulate into t, from the index and guard."""
    req = bat = None
    for w in ws:
        for l in _lits(w.pc):
            for a in ksum._pc_atoms(l):
                kk = akey(a)
                if kk[0] == "p" and kk[1].endswith("_requires_grad"):
                    req = kk[1]
        for a in w.idx.atoms():
            kk = akey(a)
            if kk[0] == "ite":
                for b in ksum._pc_atoms(kk[1]):
                    k2 = akey(b)
                    if k2[0] == "p" and k2[1].endswith("_batched"):
                        bat = k2[1]
    if bat is None and req is not None:
        b = req[:-len("_requires_grad")] + "_batched"
        bat = b
    return req, bat


def _covered(w, lits, ndim):
    """[(dim, lo, hi)] covered by the index of a grid write."""
    st = ksum.strides(ndim)
    dims = ksum.dims_of(ndim)
    out = []
    atoms = [a for a in w.idx.atoms() if akey(a)[0] == "lv"]
    if len(atoms) == 1 and w.idx.lin(atoms[0]) == (ONE, ZERO):
        lo, hi, step = _bounds(w.loops, lits, atoms[0])
        if hi == ngrid(ndim) and step == 1:
            return [(d, lo, A("p", "n" + d)) for d in dims]
    const = w.idx
    per = {}
    sd = st if isinstance(st, dict) else dict(zip(dims, st))
    for a in atoms:
        r = const.lin(a)
        if r is None:
            return [(d, None, None) for d in dims]
        for d in dims:
            if r[0] == sd[d]:
                per[d] = a
        const = r[1]
    for d in dims:
        a = per.get(d)
        if a is None:
            out.append((d, None, None))
            continue
        # constant offset of this dimension
        c = ZERO
        s = sd[d].m
        key = list(s)[0] if s else ()
        if key in const.m:
            c = P(const.m[key])
        lo, hi, step = _bounds(w.loops, lits, a)
        if hi is None or lo is None or step != 1:
            out.append((d, None, None))
            continue
        out.append((d, lo + c, hi + c))
    return out
