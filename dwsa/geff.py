"""Effect of the compiled calls on the tensors they are given.

What a call writes is the kernel's business (the K rules decide it); here each
written region receives symbols that say which field, at which time, at which
place, so that whatever the Python layer does with the buffers afterwards can
be compared with the specification."""
from . import pytensor as pt
from . import terms as t
from .glue import fatom, pk, IGN
from .terms import P


def pairs(call):
    """(first, second) buffers that swap roles every step."""
    r = set(call.roles)
    out = []
    for x in call.roles:
        for sfx in ("", "sc"):
            if sfx and not x.endswith(sfx):
                continue
            base = x[:len(x) - len(sfx)]
            y = base + "n" + sfx
            if y in r:
                out.append((x, y))
    return out


class Effects:
    def __init__(self, case):
        self.c = case
        self.cfg = case.cfg
        self.fields = {f.role: f for f in case.cfg.fields}

    def even(self, n):
        return bool(self.c.path.decide(t.b_eq0(t.imod(n, P(2)))))

    def region(self, role):
        f = self.fields[role]
        return lambda idx: self.c.live(f, idx[1:])

    def __call__(self, it, call):
        n, start = call.num("nt"), call.num("start_t")
        if call.pas == "forward":
            self.forward(it, call, start, n)
        else:
            self.backward(it, call, start, n)

    def put(self, it, call, buf, role, tag, T):
        x = call.tensor(buf)
        if x is None:
            return
        pt.write(it, x, self.region(role), lambda idx: fatom(tag, role, T, *idx))

    def put_fields(self, it, call, T, n, tag):
        two = [(a, b) for a, b in pairs(call) if a in self.fields]
        for sfx in ("", "sc"):
            if "wfc" + sfx in call.roles:
                two.append(("wfc" + sfx, "wfp" + sfx))
        even = self.even(n) if two else True
        done = set()
        for a, b in two:
            done |= {a, b}
            new, old = (a, b) if even else (b, a)
            self.put(it, call, new, a, tag, T)
            if a.startswith("wfc"):
                self.put(it, call, old, b, tag, T)
            else:
                self.put(it, call, old, a, "stale", T)
        for f in self.fields:
            if f in call.roles and f not in done:
                self.put(it, call, f, f, tag, T)

    def forward(self, it, call, start, n):
        T = start + n
        self.put_fields(it, call, T, n, "st")
        for name, role, li, nn in self.cfg.rec:
            x = call.tensor(role)
            if x is None or call.tensor(li) is None:
                continue
            loc = pt.reader(call.tensor(li))

            def cond(idx, loc=loc):
                return t.b_and(t.b_not(t.b_lt0(idx[0] - start)), t.b_lt0(idx[0] - T),
                               *([t.b_not(t.b_lt0(loc((idx[1], idx[2]))))] if self.cfg.ign else []))
            if len(x.shape) == 3:
                pt.write(it, x, cond, lambda idx, role=role: fatom("rec", role, *idx))

    def backward(self, it, call, start, n):
        T = start - n
        self.put_fields(it, call, T, n, "bw")
        for role in call.roles:
            if not role.startswith("grad_") or role.startswith("grad_r") or role.endswith("_thread"):
                continue
            x = call.tensor(role)
            if x is None:
                continue
            if role.startswith("grad_f"):
                li = source_list(self.cfg, role)
                lt = call.tensor(li) if li in call.roles else None
                if lt is None or len(x.shape) != 3:
                    continue
                loc = pt.reader(lt)

                def cond(idx, loc=loc):
                    return t.b_and(t.b_not(t.b_lt0(idx[0] - T)), t.b_lt0(idx[0] - start),
                                   *([t.b_not(t.b_lt0(loc((idx[1], idx[2]))))] if self.cfg.ign else []))
                pt.write(it, x, cond, lambda idx, role=role: fatom("gf", role, *idx))
            elif len(x.shape) == 1 + self.cfg.ndim:
                old = pt.reader(x)
                pt.write(it, x, pt.always,
                         lambda idx, role=role, old=old: old(idx) + fatom("gm", role, start, n, *idx))


def source_list(cfg, grad_role):
    r = grad_role[len("grad_"):]
    for sfx, role, li, n in cfg.src:
        if role == r or r == "fsc":
            return li
    return None
