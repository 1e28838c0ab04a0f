"""Variables written inside parallel and vectorised loops are private to an iteration."""
import re

from . import cfront, ksem
from .cfront import walk


def _base(n):
    """The variable an lvalue designates, when no pointer is followed."""
    while n.k in ("idx", "member", "cast"):
        if n.k == "idx" and "*" in (n.c[0].t or "") and "[" not in (n.c[0].t or ""):
            return None
        n = n.c[0]
    return n if n.k == "var" else None


def _clause_vars(prag):
    out = {}
    for m in re.finditer(r"\b(private|lastprivate|firstprivate|linear|reduction)\s*\(([^)]*)\)", prag):
        for v in m.group(2).split(":")[-1].split(","):
            out[v.strip()] = m.group(1)
    return out


def _collapse(prag, ndim):
    m = re.search(r"collapse\s*\(\s*(\w+)\s*\)", prag)
    if not m:
        return 1
    t = m.group(1)
    return ndim if t == "DW_NDIM" else int(t)


def _loopvars(f, n):
    """References of the associated loop variables."""
    out = set()
    cur = f
    for _ in range(n):
        ini = cur.c[0]
        for x in walk(ini):
            if x.k == "assign" and x.c[0].k == "var":
                out.add(x.c[0].ref)
                break
            if x.k == "vardecl":
                out.add(x.ref)
        nxt = cur.c[3]
        while nxt is not None and nxt.k == "block" and len(nxt.c) == 1:
            nxt = nxt.c[0]
        if nxt is None or nxt.k != "for":
            break
        cur = nxt
    return out


def shared_scalar(rep, prop, ndim, acc, dtype):
    f = prop + ".c"
    tu = cfront.parse(f, ndim, acc, dtype)
    rep.unit("%s/%d/%d" % (f, ndim, acc))
    npar = 0
    for name, fn in sorted(tu.funcs.items()):
        for n in walk(fn.body):
            if n.k != "for" or not n.x:
                continue
            prag = n.x
            npar += "parallel" in prag
            par = "parallel" in prag
            lv = _loopvars(n, _collapse(prag, ndim))
            cl = _clause_vars(prag)
            declared = {x.ref: x for x in walk(n.c[3]) if x.k == "vardecl"}
            for x in walk(n.c[3]):
                tgt = None
                if x.k == "assign":
                    tgt = _base(x.c[0])
                elif x.k == "un" and x.v in ("++", "--", "p++", "p--", "&"):
                    tgt = _base(x.c[0])
                if tgt is None:
                    continue
                con = "%s:%s:%s" % (f, re.sub(r"_iso_.*", "", name), tgt.v)
                d = declared.get(tgt.ref)
                ok = (d is not None and d.x != 2) or tgt.ref in lv or tgt.v in cl
                if x.k == "un" and x.v == "&" and not par:
                    continue
                rep.check(ok, "iteration-private", "%s:%d" % (f, x.line), con,
                          "%s is shared by the iterations of the %s loop at line %d and is written in it" % (
                              tgt.v, "parallel" if par else "vectorised", n.line))
    rep.check(npar >= 1, "iteration-private", f, f + ":parallel", "no parallel loop found")


def jobs(tier):
    return [(shared_scalar, (p, n, a, "float")) for p in ksem.PROPS for n in ksem.NDIMS
            for a in (ksem.ACCS if tier == "thorough" else (2, 8))]
