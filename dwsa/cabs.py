"""Gated value-numbering of C/CUDA functions.

Each function is interpreted once over the abstract domain of terms.py:
branches are joined with gates (no path enumeration), loops with constant trip
counts are unrolled as the compiler does (GCC unroll pragmas), every other loop
is summarised by one symbolic iteration with its induction variables in closed
form and pointer rotations kept as permutations.  The result is a tree of
effects: array writes with their guard and value, calls, loops and launches.
Return codes of external calls are taken as success here; the fault paths are
the subject of separate typestate rules.
"""
from . import cfront
from .cfront import FrontError
from .terms import *
from . import terms


def is_float_type(t):
    t = t.replace("const", "").replace("__restrict", "").strip()
    return t in ("float", "double", "long double")


def is_int_type(t):
    t = t.replace("const", "").replace("__restrict", "").strip()
    return (not is_float_type(t)) and "*" not in t and "[" not in t


def is_ptr_type(t):
    return "*" in t or "[" in t


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off=ZERO):
        self.base = base
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return "&%s[%s]" % (base_show(self.base), show(self.off))


class Arr:
    """Initialised local constant array."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Arr) and self.v == o.v

    def __hash__(self):
        return hash(tuple(self.v))


class Obj:
    """Small struct value (dim3)."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Obj) and self.f == o.f

    def __hash__(self):
        return hash(tuple(sorted(self.f)))

    def __repr__(self):
        return "Obj(%r)" % self.f


class Addr:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, Addr) and self.ref == o.ref

    def __hash__(self):
        return hash(self.ref)


class W:
    """Array write."""
    kind = "W"
    __slots__ = ("base", "idx", "val", "pc", "line", "acc", "loops", "fn")

    def __init__(self, base, idx, val, pc, line, loops, fn):
        self.base, self.idx, self.val, self.pc = base, idx, val, pc
        self.line, self.loops, self.fn = line, loops, fn

    def __repr__(self):
        return "W %s[%s] = %s if %s @%d" % (base_show(self.base), show(self.idx), show(self.val),
                                            bshow(self.pc), self.line)


class CallE:
    kind = "call"
    __slots__ = ("name", "args", "pc", "line", "ret", "loops", "fn")

    def __init__(self, name, args, pc, line, ret, loops, fn):
        self.name, self.args, self.pc, self.line, self.ret = name, args, pc, line, ret
        self.loops, self.fn = loops, fn

    def __repr__(self):
        return "call %s(%s) if %s @%d" % (self.name, ", ".join(map(str, self.args)), bshow(self.pc), self.line)


class LoopE:
    kind = "loop"
    __slots__ = ("id", "var", "lo", "hi", "step", "pc", "body", "line", "prag", "mu", "fn", "name", "cond", "loops")

    def __repr__(self):
        return "loop %s in [%s, %s) step %s @%d%s\n" % (
            self.var, self.lo, self.hi, self.step, self.line, " " + self.prag if self.prag else "") + \
            "\n".join("  " + l for e in self.body for l in repr(e).split("\n"))


class LaunchE:
    kind = "launch"
    __slots__ = ("name", "grid", "block", "smem", "stream", "pc", "body", "line", "args", "fn", "loops")

    def __repr__(self):
        return "launch %s grid=%s block=%s stream=%s if %s @%d\n" % (
            self.name, self.grid, self.block, self.stream, bshow(self.pc), self.line) + \
            "\n".join("  " + l for e in self.body for l in repr(e).split("\n"))


class RetE:
    kind = "ret"
    __slots__ = ("val", "pc", "line", "fn", "loops")

    def __init__(self, val, pc, line, fn, loops):
        self.val, self.pc, self.line, self.fn, self.loops = val, pc, line, fn, loops

    def __repr__(self):
        return "return %s if %s @%d" % (self.val, bshow(self.pc), self.line)


def flat(effects, kinds=("W",)):
    for e in effects:
        if e.kind in kinds:
            yield e
        if e.kind in ("loop", "launch"):
            yield from flat(e.body, kinds)


def vite(c, x, y):
    if c == T:
        return x
    if c == F:
        return y
    if x is y or x == y:
        return x
    if x is None:
        return y
    if y is None:
        return x
    if isinstance(x, Poly) and isinstance(y, Poly):
        return ite(c, x, y)
    if isinstance(x, Poly) and isinstance(y, Ptr) and x.const() == 0:
        x = Ptr(("null",))
    if isinstance(y, Poly) and isinstance(x, Ptr) and y.const() == 0:
        y = Ptr(("null",))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.base == y.base:
            return Ptr(x.base, ite(c, x.off, y.off))
        return Ptr(base_ite(c, x.base, y.base), ite(c, x.off, y.off))
    if isinstance(x, Obj) and isinstance(y, Obj):
        return Obj({k: vite(c, x.f.get(k), y.f.get(k)) for k in set(x.f) | set(y.f)})
    return Ptr(("unknown-join",))


UNROLL_MAX = 130


class Interp:
    def __init__(self, tu, facts=None, no_fault=True, inline=True):
        self.tu = tu
        self.env = {}
        self.genv = {}
        self.frames = [[]]
        self.loops = []
        self.nloop = 0
        self.fnstack = []
        self.launch = None
        self.facts = facts
        self.seq = 0
        self.retstack = []
        self.inline = inline
        self.reads = []          # (base, idx, pc, line, loops, fn)
        self.unknown = []        # unsupported constructs met

    # ------------------------------------------------------------ entry
    def run(self, name):
        fn = self.tu.funcs.get(name)
        if fn is None:
            raise FrontError("function %s not found in %s" % (name, self.tu.path))
        for pn, pt, pref in fn.params:
            if is_ptr_type(pt):
                self.env[pref] = Ptr(("p", pn))
            elif pt.strip() in ("cudaStream_t",):
                self.env[pref] = Ptr(("p", pn))
            else:
                self.env[pref] = A("p", pn)
        self.fnstack.append(fn)
        self.retstack.append([])
        self.exec(fn.body, T)
        self.fnstack.pop()
        return self.frames[0]

    def emit(self, e):
        self.frames[-1].append(e)

    def fn(self):
        return self.fnstack[-1].name if self.fnstack else ""

    # ------------------------------------------------------- statements
    def exec(self, n, pc):
        """Execute n under path condition pc; returns the fall-through gate."""
        k = n.k
        if k == "block":
            fall = T
            for c in n.c:
                if fall == F:
                    break
                fall = b_and(fall, self.exec(c, b_and(pc, fall)))
            return fall
        if k == "decls":
            for d in n.c:
                self.decl(d, pc)
            return T
        if k == "vardecl":
            self.decl(n, pc)
            return T
        if k == "if":
            c = self.cond(n.c[0], pc)
            thn = n.c[1]
            els = n.c[2] if len(n.c) > 2 else None
            if c == T or (b_and(pc, c) == pc and pc != T):
                return self.exec(thn, pc)
            if c == F or b_and(pc, c) == F:
                return self.exec(els, pc) if els is not None else T
            e0 = dict(self.env)
            g0 = dict(self.genv)
            f1 = self.exec(thn, b_and(pc, c))
            e1, g1 = self.env, self.genv
            self.env, self.genv = e0, g0
            f2 = T
            if els is not None:
                f2 = self.exec(els, b_and(pc, b_not(c)))
            if f1 == F and f2 != F:
                pass
            elif f2 == F and f1 != F:
                self.env, self.genv = e1, g1
            else:
                self.env = self.join(c, e1, self.env)
                self.genv = self.join(c, g1, self.genv)
            if f1 == f2:
                return f1
            return b_or(b_and(c, f1), b_and(b_not(c), f2))
        if k in ("for", "while", "do"):
            return self.loop(n, pc)
        if k == "return":
            v = self.eval(n.c[0], pc) if n.c else None
            if len(self.retstack) > 1:
                self.retstack[-1].append((pc, v))
            else:
                self.emit(RetE(v, pc, n.line, self.fn(), tuple(self.loops)))
            return F
        if k == "break":
            self.breaks = True
            self.brk[-1] = b_or(self.brk[-1], pc) if self.brk else pc
            return F
        if k == "continue":
            return F
        if k == "switch":
            return self.switch(n, pc)
        if k in ("opaque",) and not n.c:
            return T
        self.eval(n, pc)
        return T

    brk = ()
    breaks = False

    def switch(self, n, pc):
        v = self.eval(n.c[0], pc)
        body = n.c[1]
        items = []
        # flatten case chains: list of (labels, statements)
        def add(st):
            labels = []
            while st.k in ("case", "default"):
                if st.k == "case":
                    labels.append(st.c[0])
                    st = st.c[1]
                else:
                    labels.append(None)
                    st = st.c[0]
            if labels:
                items.append((labels, [st]))
            elif items:
                items[-1][1].append(st)
        for st in body.c:
            add(st)
        # only break-terminated (or final) arms
        conds = []
        allc = F
        for labels, sts in items:
            c = F
            for l in labels:
                if l is not None:
                    c = b_or(c, b_eq0(v - self.eval(l, pc)))
            conds.append(c)
            allc = b_or(allc, c)
        e_in = dict(self.env)
        acc = None
        fall = F
        cov = F
        for (labels, sts), c in zip(items, conds):
            if None in labels:
                c = b_or(c, b_not(allc))
            self.env = dict(e_in)
            f = T
            self.brk = list(self.brk) + [F]
            for st in sts:
                if f == F:
                    break
                if st.k == "break":
                    break
                f = b_and(f, self.exec(st, b_and(pc, c, f)))
            b = self.brk[-1]
            self.brk = self.brk[:-1]
            if b != F:
                f = T
            acc = self.env if acc is None else self.join(c, self.env, acc)
            fall = b_or(fall, b_and(c, f))
            cov = b_or(cov, c)
        if cov != T:
            acc = self.join(cov, acc, e_in) if acc is not None else e_in
            fall = b_or(fall, b_not(cov))
        self.env = acc if acc is not None else e_in
        return fall

    def join(self, c, a, b):
        out = dict(b)
        for k, v in a.items():
            if k not in b:
                out[k] = v
            else:
                w = b[k]
                if w is not v:
                    out[k] = vite(c, v, w)
        return out

    def decl(self, d, pc):
        if d.c:
            ini = d.c[0]
            if ini.k == "initlist":
                vals = [self.eval(x, pc) for x in ini.c]
                self.env[d.ref] = Arr(vals) if "[" in d.t else (vals[0] if vals else ZERO)
                return
            if ini.k == "construct":
                self.env[d.ref] = self.construct(ini, pc, d)
                return
            self.env[d.ref] = self.eval(ini, pc)
        else:
            if "[" in d.t:
                self.env[d.ref] = Ptr(("local", d.v))
            elif d.t.startswith(("ScopedStream", "ScopedEvent", "ScopedFile")):
                self.env[d.ref] = Ptr(("obj", d.v))
            else:
                self.env[d.ref] = None

    def construct(self, n, pc, d=None):
        args = [self.eval(x, pc) for x in n.c]
        if n.v == "dim3":
            if len(args) == 1 and isinstance(args[0], Obj):
                return args[0]
            vals = [a if isinstance(a, Poly) else ONE for a in args] + [ONE] * 3
            return Obj({"x": vals[0], "y": vals[1], "z": vals[2]})
        if d is not None:
            o = Ptr(("obj", d.v))
            if args:
                self.emit(CallE("construct:" + str(n.v), [o] + args, pc, n.line, None, tuple(self.loops), self.fn()))
            return o
        if len(args) == 1:
            return args[0]
        return Ptr(("obj", n.v))

    # ------------------------------------------------------------ loops
    def assigned(self, nodes):
        out = {}
        for node in nodes:
            if node is None:
                continue
            for x in cfront.walk(node):
                t = None
                if x.k == "assign":
                    t = x.c[0]
                elif x.k == "un" and x.v in ("++", "--", "p++", "p--"):
                    t = x.c[0]
                elif x.k == "un" and x.v == "&":
                    t = x.c[0]
                elif x.k == "call" and x.v == "swap":
                    for a in x.c:
                        if a.k == "var":
                            out[a.ref] = a.v
                if t is not None and t.k == "var":
                    out[t.ref] = t.v
                if x.k == "assign" and x.c[0].k == "member":
                    b = x.c[0]
                    while b.k == "member" and b.c:
                        b = b.c[0]
                    if b.k == "var":
                        out[b.ref] = b.v
        return out

    def loop(self, n, pc):
        if n.k == "for":
            init, cond, inc, body = n.c
            self.exec(init, pc)
        elif n.k == "while":
            cond, body = n.c
            inc = None
        else:
            body, cond = n.c
            inc = None
        e_save = dict(self.env)
        # constant trip count: unroll
        if n.k != "do" and not (cond.k == "block"):
            c = self.cond(cond, pc)
            if c == F:
                return T
            if c == T:
                return self.unroll(n, cond, inc, body, pc)
        return self.symloop(n, cond, inc, body, pc)

    def unroll(self, n, cond, inc, body, pc):
        self.brk = list(self.brk) + [F]
        alive = T
        ret_fall = T
        for it in range(UNROLL_MAX + 1):
            c = self.cond(cond, b_and(pc, alive))
            if c == F:
                break
            if c != T:
                raise FrontError("%s:%d: loop condition stops being constant while unrolling" % (
                    self.tu.path, n.line))
            if it == UNROLL_MAX:
                raise FrontError("%s:%d: constant-bound loop too long to unroll" % (self.tu.path, n.line))
            self.exec(body, b_and(pc, alive))
            b = self.brk[-1]
            if b != F:
                alive = b_and(alive, b_not(b))
                if b_and(pc, alive) == F:
                    break
            if inc is not None:
                self.eval(inc, pc) if inc.k != "block" else None
        self.brk = self.brk[:-1]
        return T

    def symloop(self, n, cond, inc, body, pc):
        self.nloop += 1
        lid = self.nloop
        asg = self.assigned([cond, inc, body])
        carried = {r: nm for r, nm in asg.items() if r in self.env}
        gcar = {r: nm for r, nm in asg.items() if r in self.genv and r not in self.env}
        init = {r: self.env[r] for r in carried}
        e0, g0 = dict(self.env), dict(self.genv)
        closed = {}
        lv = None
        for attempt in range(4):
            self.env, self.genv = dict(e0), dict(g0)
            mus = {}
            for r, nm in carried.items():
                if r in closed:
                    self.env[r] = closed[r]
                    continue
                v = init[r]
                if isinstance(v, Ptr):
                    mus[r] = Ptr(("mu", lid, nm))
                elif isinstance(v, (Obj, Arr)):
                    continue
                else:
                    mus[r] = A("lv", "%s.%d" % (nm, lid))
                self.env[r] = mus[r]
            frame = []
            self.frames.append(frame)
            nreads = len(self.reads)
            self.brk = list(self.brk) + [F]
            info = LoopE()
            info.id = lid
            self.loops.append(info)
            c = self.cond(cond, pc) if cond is not None and cond.k != "block" else T
            info.var = info.lo = info.hi = info.step = None
            for r, m in mus.items():
                if isinstance(m, Poly) and _cond_has(c, m.single()):
                    h = _bound(c, m.single(), 1)
                    if h is not None:
                        info.var, info.lo, info.hi = m.single(), init[r], h
                        break
            info.line = n.line
            info.prag = n.x
            self.exec(body, pc)
            if inc is not None and inc.k != "block":
                self.eval(inc, pc)
            self.loops.pop()
            self.frames.pop()
            brk = self.brk[-1]
            self.brk = self.brk[:-1]
            nxt = {r: self.env.get(r) for r in carried}
            # classify induction variables
            ind = {}
            rot = {}
            killed = {}
            sums = {}
            for r, mu in mus.items():
                v = nxt[r]
                if isinstance(mu, Poly) and isinstance(v, Poly):
                    d = (v - mu)
                    if d.const() is not None and d.const() != 0:
                        ind[r] = d
                    elif d.const() == 0:
                        rot[r] = r
                    else:
                        killed[r] = v
                elif isinstance(mu, Ptr) and isinstance(v, Ptr):
                    tgt = [q for q, m in mus.items() if isinstance(m, Ptr) and m.base == v.base]
                    if tgt and v.off == ZERO:
                        rot[r] = tgt[0]
                    elif tgt and tgt[0] == r:
                        ind[r] = v.off
                    else:
                        killed[r] = v
                else:
                    killed[r] = v
            # primary induction variable: the one compared in the condition
            prim = None
            for r in ind:
                if isinstance(mus[r], Poly):
                    a = mus[r].single()
                    if _cond_has(c, a):
                        prim = r
                        break
            if prim is None:
                for r in ind:
                    if isinstance(mus[r], Poly):
                        prim = r
                        break
            new_closed = {}
            if prim is not None and isinstance(init[prim], Poly):
                lvp = mus[prim]
                dp = ind[prim]
                for r in ind:
                    if r == prim:
                        continue
                    kk = (lvp - init[prim]) * inv(dp)
                    if isinstance(mus[r], Poly) and isinstance(init[r], Poly):
                        new_closed[r] = init[r] + kk * ind[r]
                    elif isinstance(mus[r], Ptr) and isinstance(init[r], Ptr):
                        if not any(a in ind[r].atoms() for a in [lvp.single()]):
                            new_closed[r] = Ptr(init[r].base, init[r].off + kk * ind[r])
            if new_closed and attempt < 3:
                closed.update(new_closed)
                del self.reads[nreads:]
                continue
            break
        # domain
        info.var = None
        info.lo = info.hi = info.step = None
        info.cond = c
        if prim is not None:
            lvp = mus[prim]
            a = lvp.single()
            info.var = a
            info.step = ind[prim].const()
            info.lo = init[prim] if isinstance(init[prim], Poly) else None
            info.hi = _bound(c, a, info.step)
            info.name = carried[prim]
        else:
            info.name = "?"
        # the guard of the loop beyond its own induction bound
        info.pc = pc
        info.body = frame
        info.line = n.line
        info.prag = n.x
        info.fn = self.fn()
        info.loops = tuple(self.loops)
        info.mu = {"rot": {mus[r].base: (mus[q].base if isinstance(mus[q], Ptr) else None)
                           for r, q in rot.items() if isinstance(mus[r], Ptr)},
                   "init": {mus[r].base: init[r] for r in mus if isinstance(mus[r], Ptr)},
                   "killed": {carried[r]: (mus[r], v) for r, v in killed.items()},
                   "brk": brk}
        # values after the loop
        after = dict(e0)
        for r in carried:
            if r in closed or r in ind:
                if r == prim and info.hi is not None and info.step == 1:
                    after[r] = A("fn", "after", "%s.%d" % (carried[r], lid))
                else:
                    v = init[r]
                    after[r] = Ptr(("after", lid, carried[r])) if isinstance(v, Ptr) else \
                        A("fn", "after", "%s.%d" % (carried[r], lid))
            elif r in rot and rot[r] == r:
                after[r] = init[r]
            elif r in rot:
                after[r] = Ptr(("after", lid, carried[r]))
            elif r in killed:
                v = nxt[r]
                mu = mus[r]
                if isinstance(v, Poly) and isinstance(mu, Poly):
                    after[r] = A("red", "%s" % carried[r], init[r] if isinstance(init[r], Poly) else ZERO, v, mu)
                elif isinstance(v, Ptr) and isinstance(init[r], Ptr):
                    after[r] = Ptr(("after", lid, carried[r], v.base))
                else:
                    after[r] = A("fn", "after", "%s.%d" % (carried[r], lid))
            elif isinstance(init[r], (Obj, Arr)):
                after[r] = init[r]
        self.env = after
        self.genv = g0
        self.emit(info)
        return T

    # ------------------------------------------------------ expressions
    def cond(self, n, pc):
        """Boolean gate of an expression."""
        k = n.k
        if k == "un" and n.v == "!":
            return b_not(self.cond(n.c[0], pc))
        if k == "bin":
            if n.v == "&&":
                a = self.cond(n.c[0], pc)
                if a == F:
                    return F
                return b_and(a, self.cond(n.c[1], b_and(pc, a)))
            if n.v == "||":
                a = self.cond(n.c[0], pc)
                if a == T:
                    return T
                return b_or(a, self.cond(n.c[1], b_and(pc, b_not(a))))
            if n.v in ("<", ">", "<=", ">=", "==", "!="):
                x, y = self.eval(n.c[0], pc), self.eval(n.c[1], pc)
                return self.compare(n.v, x, y, not (is_float_type(n.c[0].t) or is_float_type(n.c[1].t)))
        if k == "cast":
            return self.cond(n.c[0], pc)
        v = self.eval(n, pc)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, Poly):
            return truth(v)
        if isinstance(v, Ptr):
            if v.base == ("null",):
                return F
            if isinstance(v.base, tuple) and v.base[0] == "ite":
                return b_or(b_and(v.base[1], self.truth(Ptr(v.base[2]))),
                            b_and(b_not(v.base[1]), self.truth(Ptr(v.base[3]))))
            return b_not(b_eq0(A("ptr", v.base)))
        return b_not(b_eq0(A("fn", "unknown", self.nextseq())))

    def nextseq(self):
        self.seq += 1
        return self.seq

    def compare(self, op, x, y, integer=True):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Poly) and x.const() == 0:
                x, y = y, x
            if isinstance(y, Poly) and y.const() == 0:
                t = self.truth(x)
                return b_not(t) if op == "==" else t
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x == y:
                return T if op in ("==", "<=", ">=") else F
            b = b_eq0(A("fn", "ptrcmp", str(x), str(y)))
            return b if op == "==" else b_not(b)
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return b_eq0(A("fn", "unknown", self.nextseq()))
        if op == "<":
            return b_lt0(x - y, integer)
        if op == ">":
            return b_lt0(y - x, integer)
        if op == "<=":
            return b_not(b_lt0(y - x, integer)) if not integer else b_lt0(x - y - 1)
        if op == ">=":
            return b_not(b_lt0(x - y, integer))
        # (bool) == const
        e = b_eq0(x - y)
        return e if op == "==" else b_not(e)

    def eval(self, n, pc):
        k = n.k
        if k == "int":
            return P(int(n.v))
        if k == "float":
            txt = (n.x or "").rstrip("fFlL")
            try:
                from fractions import Fraction
                return P(Fraction(txt))
            except (ValueError, ZeroDivisionError):
                return P(float(n.v))
        if k == "str":
            return Ptr(("str", n.v))
        if k == "var":
            return self.var(n)
        if k == "cast":
            v = self.eval(n.c[0], pc)
            if isinstance(v, Poly) and is_int_type(n.t) and is_float_type(n.c[0].t):
                c = v.const()
                if c is not None:
                    return P(int(c))
                return A("fn", "trunc", v)
            if isinstance(v, Poly) and n.t.replace("const", "").strip() in ("bool", "_Bool"):
                return b_val(truth(v))
            if isinstance(v, Poly) and is_ptr_type(n.t) and v.const() == 0:
                return Ptr(("null",))
            return v
        if k == "sizeof":
            x = n.x or ""
            return A("sizeof", "".join(x.split()).replace("sizeof", ""))
        if k == "bin":
            return self.binop(n, pc)
        if k == "un":
            return self.unop(n, pc)
        if k == "cond":
            c = self.cond(n.c[0], pc)
            if c == T or (pc != T and b_and(pc, c) == pc):
                return self.eval(n.c[1], pc)
            if c == F or b_and(pc, c) == F:
                return self.eval(n.c[2], pc)
            x = self.eval(n.c[1], b_and(pc, c))
            y = self.eval(n.c[2], b_and(pc, b_not(c)))
            return vite(c, x, y)
        if k == "idx":
            b, off = self.address(n, pc)
            if isinstance(b, Arr):
                c = off.const()
                if c is not None and 0 <= c < len(b.v):
                    return b.v[int(c)]
                if c is not None:
                    raise FrontError("%s:%d: constant index %s outside a local array" % (self.tu.path, n.line, c))
                v = b.v[-1]
                for i in range(len(b.v) - 2, -1, -1):
                    v = vite(b_eq0(off - i), b.v[i], v)
                return v
            return self.read(b, off, pc, n)
        if k == "assign":
            return self.assign(n, pc)
        if k in ("call",):
            return self.call(n, pc)
        if k == "mcall":
            o = self.eval(n.c[0], pc)
            args = [self.eval(x, pc) for x in n.c[1:]]
            self.emit(CallE(n.v, [o] + args, pc, n.line, None, tuple(self.loops), self.fn()))
            return ZERO
        if k == "launch":
            return self.dolaunch(n, pc)
        if k == "construct":
            return self.construct(n, pc)
        if k == "member":
            return self.member(n, pc)
        if k == "initlist":
            return Arr([self.eval(x, pc) for x in n.c])
        if k == "block":
            return ZERO
        if k == "opaque":
            for c in n.c:
                self.eval(c, pc)
            self.unknown.append((n.v, n.line))
            return A("fn", "opaque", str(n.v), self.nextseq())
        raise FrontError("%s:%d: unsupported construct %s" % (self.tu.path, n.line, k))

    def var(self, n):
        if n.ref in self.env:
            v = self.env[n.ref]
            if v is None:
                return A("fn", "uninit", n.v)
            return v
        if n.ref in self.genv:
            return self.genv[n.ref]
        g = self.tu.gvars.get(n.v)
        if g is not None:
            if g.c and "const" in g.t and g.c[0].k != "initlist":
                return self.eval(g.c[0], T)
            if g.c and g.c[0].k == "initlist" and "const" in g.t:
                return Arr([self.eval(x, T) for x in g.c[0].c])
            if is_ptr_type(g.t):
                return Ptr(("g", n.v))
            return A("p", n.v)
        if n.v in ("threadIdx", "blockIdx", "blockDim", "gridDim"):
            return Obj({"__cuda__": n.v})
        if n.v in self.tu.funcs:
            return Ptr(("func", n.v))
        if is_ptr_type(n.t):
            return Ptr(("p", n.v))
        return A("p", n.v)

    def member(self, n, pc):
        o = self.eval(n.c[0], pc) if n.c else None
        if isinstance(o, Obj):
            if "__cuda__" in o.f:
                return self.cuda_dim(o.f["__cuda__"], n.v)
            if n.v in o.f:
                return o.f[n.v]
        if isinstance(o, Ptr):
            return Ptr(("member", o.base, n.v))
        return A("fn", "member", n.v, self.nextseq())

    def cuda_dim(self, what, d):
        L = self.launch
        if L is None:
            return A("cuda", what, d)
        G = A("lv", "G%s.%d" % (d, L["id"]))
        B = A("lv", "B%s.%d" % (d, L["id"]))
        D = A("lv", "D%s.%d" % (d, L["id"]))
        if what == "blockIdx":
            return B
        if what == "blockDim":
            return D
        if what == "gridDim":
            return A("cuda", "gridDim", d, L["id"])
        return G - B * D      # threadIdx: global id - blockIdx*blockDim

    def binop(self, n, pc):
        op = n.v
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            return b_val(self.cond(n, pc))
        if op == ",":
            self.eval(n.c[0], pc)
            return self.eval(n.c[1], pc)
        x, y = self.eval(n.c[0], pc), self.eval(n.c[1], pc)
        return self.arith(op, x, y, n)

    def arith(self, op, x, y, n):
        if isinstance(x, Arr):
            x = Ptr(("local-array",))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "+":
                if isinstance(y, Ptr):
                    x, y = y, x
                if isinstance(y, Poly):
                    return Ptr(x.base, x.off + y)
            if op == "-" and isinstance(x, Ptr):
                if isinstance(y, Poly):
                    return Ptr(x.base, x.off - y)
                if isinstance(y, Ptr) and x.base == y.base:
                    return x.off - y.off
            return A("fn", "ptrarith", self.nextseq())
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return A("fn", "arith", op, self.nextseq())
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if is_float_type(n.t) or is_float_type(n.c[0].t) or is_float_type(n.c[-1].t):
                return x * inv(y)
            return idiv(x, y)
        if op == "%":
            return imod(x, y)
        if op == "&":
            cy, cx = y.const(), x.const()
            if cx is not None and cy is not None:
                return P(int(cx) & int(cy))
            if cy == 1:
                return imod(x, P(2))
            if cx == 1:
                return imod(y, P(2))
        if op == "<<" and y.const() is not None:
            return x * (2 ** int(y.const()))
        if op == ">>" and y.const() is not None:
            return idiv(x, P(2 ** int(y.const())))
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None and op in "|^":
            return P(int(cx) | int(cy) if op == "|" else int(cx) ^ int(cy))
        return A("fn", "op" + op, x, y)

    def unop(self, n, pc):
        op = n.v
        if op == "!":
            return b_val(b_not(self.cond(n.c[0], pc)))
        if op in ("++", "--", "p++", "p--"):
            old = self.eval(n.c[0], pc)
            d = ONE if "+" in op else -ONE
            new = Ptr(old.base, old.off + d) if isinstance(old, Ptr) else old + d
            self.store(n.c[0], new, pc)
            return old if op.startswith("p") else new
        if op == "&":
            t = n.c[0]
            if t.k == "var":
                v = self.env.get(t.ref)
                if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == "obj":
                    return v
                return Addr(t.ref)
            if t.k == "idx":
                b, off = self.address(t, pc)
                if not isinstance(b, Arr):
                    return Ptr(b, off)
            return Ptr(("addr", self.nextseq()))
        if op == "*":
            v = self.eval(n.c[0], pc)
            if isinstance(v, Addr):
                return self.env.get(v.ref)
            if isinstance(v, Ptr):
                return self.read(v.base, v.off, pc, n)
            return A("fn", "deref", self.nextseq())
        v = self.eval(n.c[0], pc)
        if op == "-":
            return -v if isinstance(v, Poly) else v
        if op == "+":
            return v
        return A("fn", "un" + op, v) if isinstance(v, Poly) else A("fn", "un" + op, self.nextseq())

    def address(self, n, pc):
        b = self.eval(n.c[0], pc)
        i = self.eval(n.c[1], pc)
        if isinstance(b, Poly) and isinstance(i, Ptr):
            b, i = i, b
        if isinstance(b, Arr):
            return b, i
        if not isinstance(b, Ptr):
            return ("unknown", self.nextseq()), i if isinstance(i, Poly) else ZERO
        if not isinstance(i, Poly):
            i = A("fn", "idx", self.nextseq())
        return b.base, b.off + i

    def store(self, t, v, pc):
        if t.k == "var":
            if t.ref in self.env or t.ref not in self.genv:
                self.env[t.ref] = v
            else:
                self.genv[t.ref] = v
            return
        if t.k == "cast":
            return self.store(t.c[0], v, pc)
        if t.k == "idx":
            b, off = self.address(t, pc)
            if isinstance(b, Arr):
                c = off.const()
                if c is not None:
                    nv = list(b.v)
                    nv[int(c)] = v
                    self.store(t.c[0], Arr(nv), pc)
                    return
                raise FrontError("%s:%d: write to a local constant array" % (self.tu.path, t.line))
            self.write(b, off, v, pc, t.line)
            return
        if t.k == "un" and t.v == "*":
            p = self.eval(t.c[0], pc)
            if isinstance(p, Addr):
                self.env[p.ref] = v
                return
            if isinstance(p, Ptr):
                self.write(p.base, p.off, v, pc, t.line)
                return
        if t.k == "member":
            o = self.eval(t.c[0], pc)
            if isinstance(o, Obj):
                o.f[t.v] = v
                return
            self.emit(CallE("store-member:" + str(t.v), [o, v], pc, t.line, None, tuple(self.loops), self.fn()))
            return
        if t.k == "cond":
            c = self.cond(t.c[0], pc)
            self.store(t.c[1], v, b_and(pc, c))
            self.store(t.c[2], v, b_and(pc, b_not(c)))
            return
        raise FrontError("%s:%d: unsupported assignment target %s" % (self.tu.path, t.line, t.k))

    def assign(self, n, pc):
        op = n.v
        v = self.eval(n.c[1], pc)
        if op != "=":
            old = self.eval(n.c[0], pc)
            v = self.arith(op[:-1], old, v, n)
        t = n.c[0]
        if is_int_type(t.t) and isinstance(v, Poly) and is_float_type(n.c[1].t):
            v = A("fn", "trunc", v) if v.const() is None else P(int(v.const()))
        self.store(t, v, pc)
        return v

    # ----------------------------------------------------------- memory
    def write(self, base, idx, val, pc, line):
        self.emit(W(base, idx, val, pc, line, tuple(self.loops), self.fn()))

    def read(self, base, idx, pc, n):
        self.reads.append((base, idx, pc, n.line, tuple(self.loops), self.fn()))
        if is_ptr_type(n.t) and not is_float_type(n.t):
            return Ptr(("rdp", base, idx))
        tags = set()
        gates = []
        inner = True
        for fi in range(len(self.frames) - 1, -1, -1):
            for e in reversed(self.frames[fi]):
                if e.kind == "W":
                    if e.base != base:
                        continue
                    if e.idx == idx:
                        g = _under(e.pc, pc)
                        if g == T:
                            v = e.val
                            for gg, vv in reversed(gates):
                                v = vite(gg, vv, v)
                            return v
                        if g != F:
                            gates.append((g, e.val))
                        continue
                    d = (e.idx - idx).const()
                    if d is not None and d != 0:
                        continue
                    if b_and(e.pc, pc) == F:
                        continue
                    tags.add("I" if _indirect(e.idx) else "A")
                elif e.kind in ("loop", "launch"):
                    for w in flat([e]):
                        if w.base != base or b_and(w.pc, pc) == F:
                            continue
                        if _indirect(w.idx):
                            tags.add("I")
                        elif not self.disjoint(w, e, idx):
                            tags.add("S")
        r = A("rd", base, idx, frozenset(tags))
        for gg, vv in reversed(gates):
            r = vite(gg, vv, r) if isinstance(vv, Poly) else r
        return r

    def disjoint(self, w, e, idx):
        if self.facts is None:
            return False
        return self.facts.disjoint(w, e, idx, self.loops)

    # ------------------------------------------------------------ calls
    def call(self, n, pc):
        name = str(n.v)
        if name == "swap" and len(n.c) == 2 and all(a.k == "var" for a in n.c):
            a, b = n.c
            va, vb = self.var(a), self.var(b)
            self.store(a, vb, pc)
            self.store(b, va, pc)
            return ZERO
        if name in ("max", "min", "fmax", "fmin", "fmaxf", "fminf") and len(n.c) == 2 and name not in self.tu.funcs:
            x, y = self.eval(n.c[0], pc), self.eval(n.c[1], pc)
            if isinstance(x, Poly) and isinstance(y, Poly):
                return (mmax if "max" in name else mmin)(x, y)
        if name == "cudaMemcpyToSymbol" and len(n.c) >= 2:
            tgt = n.c[0]
            src = self.eval(n.c[1], pc)
            if tgt.k == "var" and isinstance(src, Addr):
                self.genv[tgt.ref] = self.env.get(src.ref)
                return ZERO
        args = [self.eval(a, pc) for a in n.c]
        if name in ("atomicAdd", "atomicAdd_system", "atomicAdd_block") and len(args) == 2 and isinstance(args[0], Ptr) \
                and isinstance(args[1], Poly):
            old = self.read(args[0].base, args[0].off, pc, cfront.N("idx", t="float", line=n.line))
            self.write(args[0].base, args[0].off, old + args[1], pc, n.line)
            self.emit(CallE(name, args, pc, n.line, None, tuple(self.loops), self.fn()))
            return old
        f = self.tu.funcs.get(name)
        if f is not None and self.inline and len(self.fnstack) < 12:
            return self.do_inline(f, args, pc, n)
        if name == "omp_get_thread_num":
            return A("tid")
        if name in ("fabs", "fabsf", "abs", "sqrt", "sqrtf", "lround", "round", "floor", "ceil", "rint"):
            return A("fn", name, *args)
        ret = ZERO
        if is_ptr_type(n.t):
            ret = Ptr(("ret", name, n.line))
        elif name in ("fread", "fwrite", "fseek", "fclose", "fflush", "ferror", "fseeko", "_fseeki64"):
            ret = A("fn", "ret", name, n.line, self.nextseq())
        self.emit(CallE(name, args, pc, n.line, ret, tuple(self.loops), self.fn()))
        return ret

    def do_inline(self, f, args, pc, n):
        saved = {r: self.env.get(r) for _, _, r in f.params if r in self.env}
        for (pn, pt, pr), a in zip(f.params, args):
            self.env[pr] = a
        self.fnstack.append(f)
        self.retstack.append([])
        brk, self.brk = self.brk, []
        fall = self.exec(f.body, pc)
        self.brk = brk
        self.fnstack.pop()
        rets = self.retstack.pop()
        v = None
        for rpc, rv in reversed(rets):
            if rv is None:
                continue
            v = rv if v is None else vite(_under(rpc, pc), rv, v)
        for r, val in saved.items():
            self.env[r] = val
        return v if v is not None else ZERO

    def dolaunch(self, n, pc):
        cfg = n.c[-1]
        args = [self.eval(a, pc) for a in n.c[:-1]]
        cargs = [self.eval(a, pc) for a in cfg.c if a.k != "opaque"]
        f = self.tu.funcs.get(n.v)
        e = LaunchE()
        e.name = n.v
        e.grid = cargs[0] if cargs else None
        e.block = cargs[1] if len(cargs) > 1 else None
        e.smem = cargs[2] if len(cargs) > 2 else ZERO
        e.stream = cargs[3] if len(cargs) > 3 else Ptr(("null",))
        e.pc = pc
        e.line = n.line
        e.args = args
        e.fn = self.fn()
        e.loops = tuple(self.loops)
        e.body = []
        if f is None:
            raise FrontError("%s:%d: kernel %s has no definition" % (self.tu.path, n.line, n.v))
        self.nloop += 1
        saved = self.launch
        self.launch = {"id": self.nloop}
        self.frames.append(e.body)
        self.loops.append(e)
        env = self.env
        self.env = dict(env)
        for (pn, pt, pr), a in zip(f.params, args):
            self.env[pr] = a
        self.fnstack.append(f)
        self.retstack.append([])
        brk, self.brk = self.brk, []
        self.exec(f.body, pc)
        self.brk = brk
        self.fnstack.pop()
        self.retstack.pop()
        self.env = env
        self.loops.pop()
        self.frames.pop()
        self.launch = saved
        self.emit(e)
        return ZERO


def _indirect(p):
    return any(terms.key(a)[0] in ("rd", "rdp") for a in p.atoms())


def _under(g, pc):
    """Gate g simplified by what pc already implies."""
    if g == pc:
        return T
    known = pc[1] if pc[0] == "and" else ({pc} if pc != T else set())
    parts = g[1] if g[0] == "and" else ({g} if g != T else set())
    rem = [x for x in parts if x not in known]
    if any(b_not(x) in known for x in parts):
        return F
    return b_and(*rem) if rem else T


def _cond_has(c, a):
    if c[0] in ("lt", "eq"):
        return a in c[1].atoms()
    if c[0] == "not":
        return _cond_has(c[1], a)
    if c[0] in ("and", "or"):
        return any(_cond_has(x, a) for x in c[1])
    return False


def _bound(c, a, step):
    """Exclusive upper (step>0) or inclusive-lower-minus-1 (step<0) bound."""
    lits = c[1] if c[0] == "and" else [c]
    for l in lits:
        neg = False
        b = l
        if b[0] == "not":
            neg = True
            b = b[1]
        if b[0] != "lt":
            continue
        p = b[1]
        r = p.lin(a)
        if r is None:
            continue
        co, rest = r
        cc = co.const()
        if cc not in (1, -1):
            continue
        # p < 0 or (neg) p >= 0
        if not neg:
            if cc == 1 and step > 0:
                return -rest            # a + rest < 0 -> a < -rest
            if cc == -1 and step < 0:
                return rest             # -a + rest < 0 -> a > rest
        else:
            if cc == -1 and step > 0:
                return rest + 1         # -a + rest >= 0 -> a <= rest
            if cc == 1 and step < 0:
                return -rest - 1        # a + rest >= 0 -> a >= -rest
    return None
