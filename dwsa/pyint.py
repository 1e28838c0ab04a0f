"""Abstract interpreter for the Python layer of the repository.

Interprets the syntax trees of /repo/src/deepwave/*.py over abstract values:
symbolic numbers (pyfacts), abstract tensors (pytensor) and Python containers
of them.  Nothing of the analysed program or of torch is imported or run.
"""
import ast
import os
from fractions import Fraction

from . import cfront
from . import terms as t
from .pyfacts import S, B, Path, Unsupported, Pruned, Restart, mk, mkb, pk, isnum, fdiv, fmod, FLOATS, is_int
from .terms import A, P


class PyRaise(Exception):
    def __init__(self, exc, node=None, where=None):
        Exception.__init__(self, repr(exc))
        self.exc = exc
        self.node = node
        self.where = where


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Env:
    __slots__ = ("d", "parent", "module", "globs", "func")

    def __init__(self, d, parent, module, func=None):
        self.d = d
        self.parent = parent
        self.module = module
        self.globs = set()
        self.func = func


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.d = {"__name__": name, "__file__": path}

    def __repr__(self):
        return "<module %s>" % self.name


class Func:
    def __init__(self, node, env, module, name, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.cls = cls
        self.defaults = []
        self.kwdefaults = []
        self.attrs = {}

    def __repr__(self):
        return "<function %s.%s>" % (self.module.name, self.name)


class Static:
    def __init__(self, f):
        self.f = f


class ClsMethod:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, f):
        self.f = f


class Cls:
    def __init__(self, name, bases, d, module):
        self.name = name
        self.bases = bases
        self.d = d
        self.module = module

    def lookup(self, n):
        if n in self.d:
            return self.d[n]
        for b in self.bases:
            if isinstance(b, Cls):
                v = b.lookup(n)
                if v is not None:
                    return v
        return None

    def derives(self, o):
        return self is o or any(isinstance(b, Cls) and b.derives(o) or b is o for b in self.bases)

    def native_base(self):
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.native_base()
                if r:
                    return r
            else:
                return b
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.d = {}

    def __repr__(self):
        return "<%s object>" % (self.cls.name if isinstance(self.cls, Cls) else self.cls)


class Bound:
    def __init__(self, f, self_):
        self.f = f
        self.self = self_


class Opq:
    """Opaque library object: attribute access and calls give opaque values."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Opq) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExcCls:
    """Builtin exception class."""
    parents = {"ZeroDivisionError": "ArithmeticError", "KeyError": "LookupError", "IndexError": "LookupError",
               "FileNotFoundError": "OSError", "PermissionError": "OSError", "FileExistsError": "OSError",
               "NotImplementedError": "RuntimeError", "OverflowError": "ArithmeticError",
               "UnicodeDecodeError": "ValueError", "StopIteration": "Exception", "ModuleNotFoundError": "ImportError"}

    def __init__(self, name):
        self.name = name

    def derives(self, o):
        n = self.name
        while n:
            if n == o:
                return True
            n = self.parents.get(n, "Exception" if n not in ("Exception", "BaseException") else
                                 "BaseException" if n == "Exception" else None)
        return False

    def __repr__(self):
        return self.name


class Exc:
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return "%r(%s)" % (self.cls, ", ".join(map(str, self.args)))


class EnumVal(int):
    """Member of an IntEnum class of the analysed program."""

    def __new__(cls, v, name, owner):
        o = int.__new__(cls, v)
        o.ename = name
        o.owner = owner
        return o


class Lazy:
    """Result of a generator expression, evaluated eagerly, consumed once."""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class SRange:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Native:
    def __init__(self, f, name=None, raw=False):
        self.f = f
        self.name = name or getattr(f, "__name__", "native")

    def __repr__(self):
        return "<builtin %s>" % self.name


EXCS = ["Exception", "BaseException", "TypeError", "ValueError", "RuntimeError", "IndexError", "KeyError",
        "AttributeError", "ZeroDivisionError", "NotImplementedError", "AssertionError", "OSError", "IOError",
        "FileNotFoundError", "PermissionError", "FileExistsError", "StopIteration", "ImportError", "ArithmeticError",
        "OverflowError", "LookupError", "NameError", "Warning", "UserWarning", "DeprecationWarning",
        "RuntimeWarning", "ModuleNotFoundError", "MemoryError", "KeyboardInterrupt"]
_NATIVE = (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, AttributeError, OverflowError)


def exc(name, *args):
    return PyRaise(Exc(ExcCls(name), args))


class Type:
    """Builtin type object."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Type) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


_TREES = {}


def tree(path):
    key = (path, os.stat(path).st_mtime_ns)
    r = _TREES.get(key)
    if r is None:
        with open(path) as f:
            r = _TREES[key] = ast.parse(f.read(), path)
    return r


class Interp:
    """One abstract run along one path."""

    def __init__(self, path, overrides=None, unroll=3, shared=None):
        self.path = path
        self.mods = {}
        self.over = overrides or {}
        self.grad = True
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.unroll = unroll
        self.src = os.path.join(cfront.REPO, "src", "deepwave")
        from . import pytensor
        self.calls = []          # kernel calls
        self.events = []         # (kind, ...)
        self.node = None
        self.mut = 0
        self.shared = set() if shared is None else shared
        self.ceil = None
        self.openmp = True
        self.num_threads = S(A("py", "num_threads"), "i")
        path.nonneg_atom(self.num_threads, 1)
        self.cuda = False
        self.vmap = False
        self.dll = pytensor.Dll()
        self.torch = pytensor.make_torch(self)
        self.lib = pytensor.libs(self)
        self.builtins = self.make_builtins()

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name == "deepwave":
            path = os.path.join(self.src, "__init__.py")
        elif name.startswith("deepwave."):
            path = os.path.join(self.src, *name.split(".")[1:]) + ".py"
            if not os.path.exists(path):
                raise exc("ModuleNotFoundError", name)
        else:
            return None
        m = Module(name, path)
        self.mods[name] = m
        if name == "deepwave":
            # submodules are reachable as attributes; load on demand
            return m
        self.run_module(m)
        return m

    def run_module(self, m):
        env = Env(m.d, None, m)
        self.block(tree(m.path).body, env)

    def import_(self, name):
        """Value of `import name` for a dotted name (the leaf)."""
        if name.split(".")[0] == "deepwave":
            return self.module(name)
        v = self.lib.get(name)
        if v is None:
            parts = name.split(".")
            v = self.lib.get(parts[0])
            for p in parts[1:]:
                v = self.getattr(v, p) if v is not None else None
        if v is None:
            v = Opq(name)
        return v

    # --------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def where(self, node):
        f = self.stack[-1] if self.stack else None
        p = os.path.relpath(f.module.path, cfront.REPO) if f else "?"
        return "%s:%s" % (p, getattr(node, "lineno", "?"))

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 4000000:
            raise Unsupported("analysis step budget exceeded")
        getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, env)

    def s_unknown(self, s, env):
        raise Unsupported("statement %s at line %s" % (type(s).__name__, s.lineno))

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.store_name(a.asname, self.import_(a.name), env)
            else:
                self.import_(a.name) if a.name.split(".")[0] != "deepwave" else None
                top = a.name.split(".")[0]
                self.store_name(top, self.module("deepwave") if top == "deepwave" else self.import_(top), env)

    def s_ImportFrom(self, s, env):
        mod = s.module or ""
        if mod == "__future__":
            return
        if s.level:
            mod = "deepwave" + ("." + mod if mod else "")
        for a in s.names:
            full = mod + "." + a.name
            if mod.split(".")[0] == "deepwave":
                if mod == "deepwave" and os.path.exists(os.path.join(self.src, a.name + ".py")):
                    v = self.module(full)
                else:
                    v = self.getattr(self.module(mod), a.name)
            else:
                base = self.import_(mod)
                v = self.lib.get(full)
                if v is None:
                    v = self.getattr(base, a.name)
            self.store_name(a.asname or a.name, v, env)

    def s_Global(self, s, env):
        env.globs |= set(s.names)

    def s_Nonlocal(self, s, env):
        raise Unsupported("nonlocal")

    def s_FunctionDef(self, s, env):
        f = self.mkfunc(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.store_name(s.name, f, env)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return Static(f)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClsMethod(f)
        if isinstance(d, ast.Name) and d.id == "property":
            return Prop(f)
        dv = self.ev(d, env)
        txt = ast.unparse(d)
        if isinstance(dv, Opq) or isinstance(dv, Native) and dv.name.startswith("deco:"):
            tgt = f.f if isinstance(f, (Static, ClsMethod, Prop)) else f
            tgt.attrs.setdefault("decorators", []).append(dv.name.replace("deco:", "") or txt)
            return f
        return self.call(dv, [f], {}, d)

    def mkfunc(self, node, env, name):
        f = Func(node, env, env.module, name)
        a = node.args
        f.defaults = [self.ev(x, env) for x in a.defaults]
        f.kwdefaults = [self.ev(x, env) if x is not None else None for x in a.kw_defaults]
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        d = {}
        cenv = Env(d, env, env.module)
        self.block(s.body, cenv)
        c = Cls(s.name, bases, d, env.module)
        for v in d.values():
            g = v.f if isinstance(v, (Static, ClsMethod, Prop)) else v
            if isinstance(g, Func):
                g.cls = c
                # class scope is not a closure scope
                if g.env is cenv:
                    g.env = env
        nb = c.native_base()
        if isinstance(nb, Type) and nb.name == "IntEnum":
            for k, v in list(d.items()):
                if isinstance(v, int) and not k.startswith("_"):
                    d[k] = EnumVal(v, k, c)
        for dec in reversed(s.decorator_list):
            raise Unsupported("class decorator")
        self.store_name(s.name, c, env)

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Delete(self, s, env):
        for x in s.targets:
            self.delete(x, env)

    def delete(self, x, env):
        if isinstance(x, ast.Name):
            if x.id not in env.d:
                raise exc("NameError", x.id)
            del env.d[x.id]
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.delete(y, env)
        elif isinstance(x, ast.Subscript):
            o = self.ev(x.value, env)
            i = self.ev(x.slice, env)
            self.native(lambda: o.__delitem__(i))
        elif isinstance(x, ast.Attribute):
            o = self.ev(x.value, env)
            o.d.pop(x.attr, None)
        else:
            raise Unsupported("del")

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for x in s.targets:
            self.assign(x, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.load_name(tg.id, env)
            self.store_name(tg.id, self.iop(s.op, old, self.ev(s.value, env), s), env)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, env)
            old = self.getattr(o, tg.attr)
            self.setattr(o, tg.attr, self.iop(s.op, old, self.ev(s.value, env), s))
        else:
            o = self.ev(tg.value, env)
            i = self.ev(tg.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.iop(s.op, old, self.ev(s.value, env), s), s)

    def iop(self, op, a, b, node):
        if self.is_tensor(a):
            return self.tmod.inplace(self, op, a, b, node)
        if isinstance(a, list) and isinstance(op, ast.Add):
            a.extend(self.iterate(b))
            return a
        return self.binop(op, a, b, node)

    def s_If(self, s, env):
        if not s.orelse and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and
                                ast.unparse(x.value.func).endswith("warnings.warn") for x in s.body):
            # a branch that only warns has no effect on any value
            try:
                self.ev(s.test, env)
            except Unsupported:
                raise
            return
        if self.truth(self.ev(s.test, env), s.test):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = sym = 0
        while True:
            before = len(self.path.lits)
            v = self.ev(s.test, env)
            known = isinstance(v, (bool, int, list, tuple, dict, type(None)))
            if not self.truth(v, s.test):
                break
            if not known:
                if sym >= self.unroll:
                    self.events.append(("unrolled", sym))
                    raise Pruned()
                sym += 1
            n += 1
            if n > 4096:
                raise Unsupported("unbounded while loop")
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
            if known and len(self.path.lits) > before:
                # `while True` left by a test on an unknown quantity
                sym += 1
                if sym > self.unroll:
                    self.events.append(("unrolled", sym))
                    raise Pruned()
        self.block(s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, SRange) and self.generic(s, it, env):
            self.block(s.orelse, env)
            return
        for v in self.iterate(it, loop=s):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, env)

    def generic(self, s, r, env):
        """An effect-free loop of unknown length is run once, for any index."""
        key = (self.stack[-1].module.name if self.stack else "", s.lineno)
        if key in self.shared or pk(r.c)[0] != P(1):
            return False
        if not self.truth(self.cmpnum(ast.Lt(), r.a, r.b)):
            return True
        i = S(A("py", "loop:%s:%d" % key), "i")
        self.path.assume_ge(i, r.a)
        self.path.assume_ge(r.b, self.arith(ast.Add(), i, 1))
        envs = []
        e = env
        while e is not None:
            envs.append((e.d, dict(e.d), self.containers(e.d)))
            e = e.parent
        n = self.mut, len(self.calls)
        ok = True
        self.assign(s.target, i, env)
        try:
            self.block(s.body, env)
        except Cont:
            pass
        except (Brk, Ret):
            ok = False
        if not ok or (self.mut, len(self.calls)) != n:
            self.shared.add(key)
            raise Restart()
        for d, old, cont in envs:
            if any(k in old and d[k] is not v for k, v in old.items() if k in d and k not in _names(s.target)) or \
                    self.containers(old) != cont:
                self.shared.add(key)
                raise Restart()
            for k in [k for k in d if k not in old]:
                del d[k]
        self.events.append(("generic", key))
        return True

    def containers(self, d):
        out = []

        def go(v, n):
            if isinstance(v, (list, tuple)):
                out.append((id(v), len(v), tuple(id(x) for x in v)))
                if n:
                    for x in v:
                        go(x, n - 1)
            elif isinstance(v, dict):
                out.append((id(v), len(v), tuple((k, id(x)) for k, x in v.items())))
            elif isinstance(v, Obj):
                go(v.d, 0)
        for v in d.values():
            go(v, 2)
        return out

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Raise(self, s, env):
        if s.exc is None:
            raise self.cur_exc
        e = self.ev(s.exc, env)
        if isinstance(e, (ExcCls, Cls)):
            e = self.call(e, [], {}, s)
        raise PyRaise(e, s, self.where(s))

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env), s.test):
            raise PyRaise(Exc(ExcCls("AssertionError")), s, self.where(s))

    cur_exc = None

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if self.matches(e.exc, h, env):
                        if h.name:
                            env.d[h.name] = e.exc
                        old, self.cur_exc = self.cur_exc, e
                        try:
                            self.block(h.body, env)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def matches(self, e, h, env):
        if h.type is None:
            return True
        ty = self.ev(h.type, env)
        for c in (ty if isinstance(ty, tuple) else (ty,)):
            if self.exc_is(e, c):
                return True
        return False

    def exc_is(self, e, c):
        ec = e.cls if isinstance(e, (Exc, Obj)) else None
        if isinstance(ec, ExcCls):
            return isinstance(c, ExcCls) and (ec.derives(c.name) or (c.name == "IOError" and ec.derives("OSError")))
        if isinstance(ec, Cls):
            if isinstance(c, Cls):
                return ec.derives(c)
            nb = ec.native_base()
            return isinstance(nb, ExcCls) and isinstance(c, ExcCls) and nb.derives(c.name)
        return False

    def s_With(self, s, env):
        supp = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            enter = None
            if isinstance(v, tuple) and v and v[0] == "suppress":
                supp.extend(v[1])
            elif isinstance(v, tuple) and v and v[0] == "grad":
                old = self.grad
                self.grad = v[1]
                try:
                    self.block(s.body, env)
                finally:
                    self.grad = old
                return
            elif isinstance(v, Opq):
                enter = v
            elif isinstance(v, Obj):
                enter = self.call(self.getattr(v, "__enter__"), [], {}, s)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, enter, env)
                try:
                    self.block(s.body, env)
                finally:
                    self.call(self.getattr(v, "__exit__"), [None, None, None], {}, s)
                return
            else:
                raise Unsupported("with %r" % (v,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, enter, env)
        try:
            self.block(s.body, env)
        except PyRaise as e:
            if not any(self.exc_is(e.exc, c) for c in supp):
                raise

    # ------------------------------------------------------------- names
    def store_name(self, n, v, env):
        if n in env.globs:
            env.module.d[n] = v
        else:
            env.d[n] = v

    def load_name(self, n, env):
        if n in env.globs:
            e = None
        else:
            e = env
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        if n in env.module.d:
            return env.module.d[n]
        if n in self.builtins:
            return self.builtins[n]
        raise exc("NameError", "name %r is not defined" % n)

    def assign(self, x, v, env):
        if isinstance(x, ast.Name):
            self.store_name(x.id, v, env)
        elif isinstance(x, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            st = [i for i, y in enumerate(x.elts) if isinstance(y, ast.Starred)]
            if st:
                i = st[0]
                after = len(x.elts) - i - 1
                if len(items) < len(x.elts) - 1:
                    raise exc("ValueError", "not enough values to unpack")
                vals = items[:i] + [items[i:len(items) - after]] + items[len(items) - after:]
                for y, w in zip(x.elts, vals):
                    self.assign(y.value if isinstance(y, ast.Starred) else y, w, env)
            else:
                if len(items) != len(x.elts):
                    raise exc("ValueError", "cannot unpack %d values into %d names" % (len(items), len(x.elts)))
                for y, w in zip(x.elts, items):
                    self.assign(y, w, env)
        elif isinstance(x, ast.Attribute):
            self.setattr(self.ev(x.value, env), x.attr, v)
        elif isinstance(x, ast.Subscript):
            self.setitem(self.ev(x.value, env), self.ev(x.slice, env), v, x)
        else:
            raise Unsupported("assignment target %s" % type(x).__name__)

    # --------------------------------------------------------- expressions
    def ev(self, e, env):
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, env)

    def e_unknown(self, e, env):
        raise Unsupported("expression %s" % type(e).__name__)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Fraction(repr(v))
        if isinstance(v, complex):
            return S(A("complex", repr(v)), "c")
        return v

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        return "".join(self.ev(x, env) if isinstance(x, ast.Constant) else self.e_FormattedValue(x, env)
                       for x in e.values)

    def e_FormattedValue(self, e, env):
        v = self.ev(e.value, env)
        return self.to_str(v)

    def to_str(self, v):
        if isinstance(v, S):
            return "<" + t.show(v.p, 60) + ">"
        if isinstance(v, EnumVal):
            return v.ename
        if isinstance(v, Fraction):
            return repr(float(v))
        if self.is_tensor(v):
            return "<tensor>"
        if isinstance(v, (list, tuple)):
            return "[" + ", ".join(self.to_str(x) for x in v) + "]"
        return str(v)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        g = lambda x: self.ev(x, env) if x is not None else None
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env), e.test) else e.orelse, env)

    def e_Lambda(self, e, env):
        f = Func(e, env, env.module, "<lambda>")
        f.defaults = [self.ev(x, env) for x in e.args.defaults]
        f.kwdefaults = [self.ev(x, env) if x is not None else None for x in e.args.kw_defaults]
        return f

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            # and/or of symbolic numbers used as truth values
            tv = self.truth(v, x)
            if tv != isand:
                return tv if isinstance(v, B) else v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, B):
                return mkb(t.b_not(v.b))
            return not self.truth(v, e)
        if self.is_tensor(v):
            return self.tmod.unary(self, e.op, v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, Fraction, float)):
                return -v
            p, k = pk(v)
            return mk(-p, k)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def is_tensor(self, v):
        return isinstance(v, self.tmod.T)

    def binop(self, op, a, b, node=None):
        if self.is_tensor(a) or self.is_tensor(b):
            return self.tmod.binary(self, op, a, b)
        if isnum(a) and isnum(b):
            return self.arith(op, a, b)
        if isinstance(op, ast.Mult):
            if isinstance(a, (S, B)) or isinstance(b, (S, B)):
                s, q = (a, b) if isinstance(b, (S, B)) else (b, a)
                if isinstance(q, S) or isinstance(s, S):
                    return ("repeat", a, b)
            return self.native(lambda: a * b)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(a) + tuple(b)
            return self.native(lambda: a + b)
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return a
        if isinstance(op, ast.Div) and isinstance(a, Opq):
            return Opq("%s/%s" % (a.name, b if isinstance(b, str) else "?"))
        if isinstance(op, (ast.BitOr,)):
            if isinstance(a, (set, dict)):
                return a | b
            return Opq("union")
        if isinstance(op, ast.Sub) and isinstance(a, set):
            return a - b
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("expr")
        raise exc("TypeError", "unsupported operand types for %s: %r %r" % (type(op).__name__, a, b))

    def arith(self, op, a, b):
        nat = not isinstance(a, (S, B)) and not isinstance(b, (S, B))
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            if nat:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                return a * b
            (p, i), (q, j) = pk(a), pk(b)
            k = "i" if i == j == "i" else "c" if "c" in (i, j) else "f"
            r = p + q if isinstance(op, ast.Add) else p - q if isinstance(op, ast.Sub) else p * q
            return mk(r, k)
        if isinstance(op, ast.Div):
            if nat and not isinstance(a, float) and not isinstance(b, float):
                if b == 0:
                    raise exc("ZeroDivisionError")
                return Fraction(a) / Fraction(b)
            if nat:
                return self.native(lambda: a / b)
            (p, i), (q, j) = pk(a), pk(b)
            if q.const() == 0:
                raise exc("ZeroDivisionError")
            return mk(p * t.inv(q), "c" if "c" in (i, j) else "f")
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if nat:
                if b == 0:
                    raise exc("ZeroDivisionError")
                return a // b if isinstance(op, ast.FloorDiv) else a % b
            (p, i), (q, j) = pk(a), pk(b)
            if i == j == "i":
                if self.path.decide(t.b_eq0(q)):
                    raise exc("ZeroDivisionError")
                return mk(fdiv(p, q) if isinstance(op, ast.FloorDiv) else fmod(p, q), "i")
            return mk(A("fn", "floordiv" if isinstance(op, ast.FloorDiv) else "mod", p, q), "f")
        if isinstance(op, ast.Pow):
            if nat:
                if isinstance(a, float) or (isinstance(b, Fraction) and b.denominator != 1):
                    return mk(A("fn", "pow", P(Fraction(a)), P(b)), "f")
                if isinstance(b, int) and b < 0:
                    return Fraction(a) ** b
                return a ** int(b)
            (p, i), (q, j) = pk(a), pk(b)
            c = q.const()
            if c is not None and c.denominator == 1 and abs(c) <= 8:
                r = P(1)
                for _ in range(abs(int(c))):
                    r = r * p
                if c < 0:
                    r = t.inv(r)
                return mk(r, "f" if c < 0 or "f" in (i, j) else "i")
            return mk(A("fn", "pow", p, q), "f")
        if isinstance(op, (ast.LShift, ast.RShift)):
            if nat:
                return a << b if isinstance(op, ast.LShift) else a >> b
            (p, i), (q, j) = pk(a), pk(b)
            if q.const() is not None:
                c = P(2 ** int(q.const()))
                return mk(p * c if isinstance(op, ast.LShift) else fdiv(p, c), "i")
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if nat:
                r = {ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b}[type(op)]()
                return r
            if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
                x = a.b if isinstance(a, B) else (t.T if a else t.F)
                y = b.b if isinstance(b, B) else (t.T if b else t.F)
                if isinstance(op, ast.BitAnd):
                    return mkb(t.b_and(x, y))
                if isinstance(op, ast.BitOr):
                    return mkb(t.b_or(x, y))
            if isinstance(op, ast.BitAnd) and b == 1:
                return mk(t.imod(pk(a)[0], P(2)), "i")
        raise Unsupported("operator %s" % type(op).__name__)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return v
                return mkb(t.b_and(res.b, v.b if isinstance(v, B) else (t.T if v else t.F)))
            if isinstance(v, B):
                res = v if res is True else B(t.b_and(res.b, v.b))
            elif not self.truth(v):
                return False
            left = right
        return res

    def cmpnum(self, op, a, b):
        if not isinstance(a, (S, B)) and not isinstance(b, (S, B)):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                    ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[type(op)]()
        if isinstance(a, float) or isinstance(b, float):
            inf = a if isinstance(a, float) else b
            if inf in (float("inf"), float("-inf")):
                big = (inf > 0) == (inf is b)     # right side is +inf or left side is -inf
                r = {ast.Lt: big, ast.LtE: big, ast.Gt: not big, ast.GtE: not big, ast.Eq: False, ast.NotEq: True}
                return r[type(op)]
        (p, i), (q, j) = pk(a), pk(b)
        return mkb(cmp_formula(op, p, q, is_int(p - q)))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            r = a is b
            if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
                if isinstance(a, B) or isinstance(b, B):
                    x = a if isinstance(a, B) else b
                    y = b if isinstance(a, B) else a
                    if isinstance(y, bool):
                        r = self.truth(x) == y
                else:
                    r = a is b
            elif isinstance(a, (Opq, Type, EnumVal)):
                r = a == b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return mkb(t.b_not(r.b)) if isinstance(r, B) else not r
        if self.is_tensor(a) or self.is_tensor(b):
            if isinstance(op, (ast.Eq, ast.NotEq)) and (a is None or b is None):
                return isinstance(op, ast.NotEq)
            return self.tmod.compare(self, op, a, b)
        if isnum(a) and isnum(b):
            return self.cmpnum(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.Eq):
                return r
            return mkb(t.b_not(r.b)) if isinstance(r, B) else not r
        if isinstance(a, Opq) or isinstance(b, Opq):
            return B(("eq", A("cmp", repr(a), type(op).__name__, repr(b))))
        if isinstance(a, (str, set)) and type(a) is type(b):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                    ast.GtE: lambda: a >= b}[type(op)]()
        raise exc("TypeError", "cannot compare %r and %r" % (a, b))

    def equal(self, a, b):
        if isnum(a) and isnum(b):
            return self.cmpnum(ast.Eq(), a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            fs = []
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if isinstance(r, B):
                    fs.append(r.b)
                elif not r:
                    return False
            return mkb(t.b_and(*fs)) if fs else True
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if isnum(a) != isnum(b):
            return False
        try:
            return bool(a == b)
        except Unsupported:
            raise

    def contains(self, c, x):
        if isinstance(c, (list, tuple)) or isinstance(c, Lazy):
            fs = []
            for y in self.iterate(c):
                r = self.equal(x, y)
                if r is True:
                    return True
                if isinstance(r, B):
                    fs.append(r.b)
            return mkb(t.b_or(*fs)) if fs else False
        if isinstance(c, Obj):
            return self.call(self.getattr(c, "__contains__"), [x], {})
        if isinstance(x, (S, B)) or self.is_tensor(x):
            return self.contains(list(c), x)
        return self.native(lambda: x in c)

    def truth(self, v, node=None):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, B):
            return self.path.decide(v.b)
        if isinstance(v, S):
            return self.path.decide(t.b_not(t.b_eq0(v.p)))
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, (str, list, tuple, dict, set, bytes)):
            return len(v) > 0
        if self.is_tensor(v):
            return self.tmod.truth(self, v)
        if isinstance(v, (Func, Cls, Obj, Native, Bound, Type, Module, ExcCls)):
            return True
        if isinstance(v, Opq):
            return self.path.decide(("eq", A("truth", v.name)))
        if isinstance(v, SRange):
            raise Unsupported("truth of range")
        return True

    def native(self, f):
        try:
            return f()
        except _NATIVE as e:
            raise exc(type(e).__name__, str(e))

    # --------------------------------------------------------- comprehensions
    def comp(self, gens, env, emit):
        def go(i, e2):
            if i == len(gens):
                emit(e2)
                return
            g = gens[i]
            for v in list(self.iterate(self.ev(g.iter, e2 if i else env))) if True else ():
                self.assign(g.target, v, e2)
                if all(self.truth(self.ev(c, e2), c) for c in g.ifs):
                    go(i + 1, e2)
        e2 = Env({}, env, env.module, env.func)
        e2.globs = set(env.globs)
        go(0, e2)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda x: out.append(self.ev(e.elt, x)))
        return out

    def e_SetComp(self, e, env):
        out = set()
        self.comp(e.generators, env, lambda x: out.add(self.ev(e.elt, x)))
        return out

    def e_GeneratorExp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda x: out.append(self.ev(e.elt, x)))
        return Lazy(out)

    def e_DictComp(self, e, env):
        out = {}

        def emit(x):
            out[self.ev(e.key, x)] = self.ev(e.value, x)
        self.comp(e.generators, env, emit)
        return out

    # ------------------------------------------------------------- iteration
    def iterate(self, v, loop=None):
        if isinstance(v, (list, tuple)):
            return iter(v) if not isinstance(v, list) else _live(v)
        if isinstance(v, (str, range, bytes)):
            return iter(v)
        if isinstance(v, set):
            return iter(sorted(v, key=repr))
        if isinstance(v, dict):
            return iter(list(v))
        if isinstance(v, Lazy):
            return _lazy(v)
        if isinstance(v, SRange):
            return self.srange(v)
        if self.is_tensor(v):
            return self.tmod.iterate(self, v)
        if isinstance(v, Cls):
            nb = v.native_base()
            if isinstance(nb, Type) and nb.name == "IntEnum":
                return iter([x for x in v.d.values() if isinstance(x, EnumVal)])
        if isinstance(v, (int, Fraction, S, B, float, type(None))):
            raise exc("TypeError", "object is not iterable")
        if isinstance(v, Obj) and v.cls.lookup("__iter__") if isinstance(v, Obj) and isinstance(v.cls, Cls) else False:
            return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
        raise Unsupported("iteration over %r" % (v,))

    def srange(self, r):
        """Symbolic range: the first `unroll` iterations, each guarded."""
        x = r.a
        n = 0
        neg = not self.truth(self.cmpnum(ast.Gt(), r.c, 0))
        while True:
            c = self.cmpnum(ast.Gt() if neg else ast.Lt(), x, r.b)
            if not self.truth(c):
                return
            if n >= self.unroll:
                self.events.append(("unrolled", n))
                raise Pruned()
            yield x
            n += 1
            x = self.arith(ast.Add(), x, r.c)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, Module):
            if n in o.d:
                return o.d[n]
            if o.name == "deepwave":
                if os.path.exists(os.path.join(self.src, n + ".py")):
                    sub = self.module("deepwave." + n)
                    # the package re-exports functions that share a module's name
                    if o.d.get("_loaded"):
                        return o.d.get(n, sub)
                    return sub
                self.load_package(o)
                if n in o.d:
                    return o.d[n]
            raise exc("AttributeError", "module %s has no attribute %s" % (o.name, n))
        if self.is_tensor(o):
            return self.tmod.getattr(self, o, n)
        if isinstance(o, Obj):
            if n in o.d:
                return o.d[n]
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.d
            if isinstance(o.cls, Cls):
                v = o.cls.lookup(n)
                if v is not None:
                    if isinstance(v, Prop):
                        return self.call(v.f, [o], {})
                    if isinstance(v, Static):
                        return v.f
                    if isinstance(v, ClsMethod):
                        return Bound(v.f, o.cls)
                    if isinstance(v, (Func, Native)):
                        return Bound(v, o)
                    return v
            h = getattr(o, "hook", None)
            if h:
                r = h(n)
                if r is not None:
                    return r
            if isinstance(o.cls, Cls) and self.module_base(o.cls):
                if n in ("parameters", "modules", "register_buffer", "train", "eval"):
                    return Native(lambda *a, **k: None, n)
            raise exc("AttributeError", "%r has no attribute %s" % (o, n))
        if isinstance(o, Cls):
            v = o.lookup(n)
            if v is not None:
                if isinstance(v, Static):
                    return v.f
                if isinstance(v, ClsMethod):
                    return Bound(v.f, o)
                return v
            if n == "__name__":
                return o.name
            if n == "apply":
                return Native(lambda *a, **k: self.apply(o, a, k), "apply")
            raise exc("AttributeError", "class %s has no attribute %s" % (o.name, n))
        if isinstance(o, EnumVal):
            if n == "name":
                return o.ename
            if n == "value":
                return int(o)
        if isinstance(o, Opq):
            return Opq(o.name + "." + n)
        if isinstance(o, (Func, Native)):
            if n == "__name__":
                return o.name
            raise exc("AttributeError", n)
        if isinstance(o, Exc):
            if n == "args":
                return o.args
            return Opq("exc." + n)
        if isinstance(o, Type):
            if n == "__name__":
                return o.name
            if o.name == "dict" and n == "fromkeys":
                return Native(lambda ks, v=None: {k: v for k in self.iterate(ks)})
            if o.name == "float" and n == "is_integer":
                return Native(lambda x: self.native(lambda: x == int(x)))
            raise exc("AttributeError", n)
        if isinstance(o, (S, B, int, Fraction)) and not isinstance(o, bool) and n in ("real", "is_integer"):
            if n == "real":
                return o
            if isinstance(o, (int, Fraction)):
                return Native(lambda: o == int(o))
        if hasattr(o, "py_getattr"):
            return o.py_getattr(self, n)
        if isinstance(o, (str, list, tuple, dict, set, bytes)):
            if n == "sort" or not hasattr(o, n):
                if n == "numel" and isinstance(o, tuple):
                    return Native(lambda: self.prod(o))
                raise exc("AttributeError", "%s has no attribute %s" % (type(o).__name__, n))
            if isinstance(o, dict) and n in ("items", "keys", "values"):
                f0 = getattr(o, n)
                return Native(lambda: list(f0()))
            if isinstance(o, list) and n == "extend":
                return Native(lambda x: o.extend(list(self.iterate(x))))
            if isinstance(o, (list, tuple)) and n in ("index", "count", "remove"):
                def fi(x):
                    if n == "count":
                        return sum(1 for y in o if self.truth(self.equal(x, y)))
                    for i, y in enumerate(o):
                        if self.truth(self.equal(x, y)):
                            if n == "remove":
                                del o[i]
                                return None
                            return i
                    raise exc("ValueError", "not found")
                return Native(fi)
            if isinstance(o, str) and n == "join":
                return Native(lambda x: o.join(self.to_str(y) for y in self.iterate(x)))
            f = getattr(o, n)
            if callable(f):
                return Native(lambda *a, **k: self.native(lambda: f(*a, **k)), n)
            return f
        if o is None or isinstance(o, (int, Fraction, S, B, float)):
            raise exc("AttributeError", "%r has no attribute %s" % (o, n))
        raise Unsupported("attribute %s of %r" % (n, o))

    def load_package(self, o):
        if not o.d.get("_loaded"):
            o.d["_loaded"] = True
            self.run_module(o)

    def module_base(self, c):
        nb = c.native_base()
        return isinstance(nb, Type) and nb.name == "Module"

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            o.d[n] = v
        elif isinstance(o, Cls):
            o.d[n] = v
        elif isinstance(o, Module):
            o.d[n] = v
        elif self.is_tensor(o):
            self.tmod.setattr(self, o, n, v)
        elif isinstance(o, Func):
            o.attrs[n] = v
        elif hasattr(o, "py_setattr"):
            o.py_setattr(self, n, v)
        elif isinstance(o, Opq):
            pass
        else:
            raise exc("AttributeError", "cannot set %s on %r" % (n, o))

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if self.is_tensor(o):
            return self.tmod.getitem(self, o, i)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                sl = slice(*[self.conc(x) for x in (i.start, i.stop, i.step)])
                return o[sl]
            if isinstance(i, (S, B)):
                raise Unsupported("symbolic list index")
            return self.native(lambda: o[i])
        if isinstance(o, dict):
            return self.native(lambda: o[i])
        if isinstance(o, (Opq, Type)):
            return Opq("sub")
        if isinstance(o, Obj):
            return self.call(self.getattr(o, "__getitem__"), [i], {})
        if isinstance(o, Cls):
            return o.d[i]
        raise exc("TypeError", "%r is not subscriptable" % (o,))

    def conc(self, x):
        if isinstance(x, (S, B)):
            raise Unsupported("symbolic slice bound of a list")
        return x

    def setitem(self, o, i, v, node=None):
        if self.is_tensor(o):
            return self.tmod.setitem(self, o, i, v, node)
        if isinstance(o, (list, dict)):
            if isinstance(i, slice):
                i = slice(*[self.conc(x) for x in (i.start, i.stop, i.step)])
                v = list(self.iterate(v))
            self.native(lambda: o.__setitem__(i, v))
            return
        if isinstance(o, Obj):
            self.call(self.getattr(o, "__setitem__"), [i, v], {})
            return
        if isinstance(o, Opq):
            return
        raise exc("TypeError", "%r does not support item assignment" % (o,))

    # ----------------------------------------------------------------- calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.super_(env)
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                for kk, vv in v.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def super_(self, env):
        e = env
        while e is not None and e.func is None:
            e = e.parent
        f = e.func
        selfv = e.d[f.node.args.args[0].arg]
        interp = self

        class _Super:
            def py_getattr(self, it, n):
                for b in f.cls.bases:
                    if isinstance(b, Cls):
                        v = b.lookup(n)
                        if v is not None:
                            return Bound(v, selfv)
                return Native(lambda *a, **k: None, n)
        return _Super()

    def call(self, f, args, kw, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Bound):
            if isinstance(f.f, Native):
                return f.f.f(f.self, *args, **kw)
            return self.call_func(f.f, [f.self] + list(args), kw, node)
        if isinstance(f, Native):
            self.node = node
            try:
                return f.f(*args, **kw)
            except TypeError as e:
                raise Unsupported("call of %s: %s" % (f.name, e))
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, ExcCls):
            return Exc(f, tuple(args))
        if isinstance(f, Type):
            return self.builtin_type(f, args, kw)
        if hasattr(f, "py_call"):
            return f.py_call(self, args, kw, node)
        if isinstance(f, Opq):
            return self.opaque_call(f, args, kw)
        if isinstance(f, Static):
            return self.call(f.f, args, kw, node)
        if isinstance(f, Obj):
            if isinstance(f.cls, Cls):
                if f.cls.lookup("__call__") is not None:
                    return self.call(self.getattr(f, "__call__"), args, kw, node)
                if self.module_base(f.cls):
                    return self.call(self.getattr(f, "forward"), args, kw, node)
        if f is None or isinstance(f, (int, str, Fraction, S, tuple, list)):
            raise exc("TypeError", "%r is not callable" % (f,))
        raise Unsupported("call of %r" % (f,))

    def opaque_call(self, f, args, kw):
        self.events.append(("opaque", f.name, tuple(args)))
        return Opq(f.name + "()")

    def instantiate(self, c, args, kw, node=None):
        nb = c.native_base()
        if isinstance(nb, Type) and nb.name == "IntEnum":
            for v in c.d.values():
                if isinstance(v, EnumVal) and v == args[0]:
                    return v
            raise exc("ValueError", "%r is not a valid %s" % (args[0], c.name))
        o = Obj(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw, node)
        elif isinstance(nb, ExcCls):
            o.d["args"] = tuple(args)
        return o

    def call_func(self, f, args, kw, node=None):
        ov = self.over.get((f.module.name, f.name if f.cls is None else f.cls.name + "." + f.name))
        if ov is not None:
            return ov(self, f, args, kw, node)
        env = self.bind(f, args, kw)
        if len(self.stack) > 60:
            raise Unsupported("recursion")
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except Ret as r:
                return r.v
            except PyRaise as e:
                if e.where is None:
                    e.where = "%s:%s" % (f.module.name, f.name)
                raise
            return None
        finally:
            self.stack.pop()

    def bind(self, f, args, kw):
        a = f.node.args
        env = Env({}, f.env if f.env is not None and f.env.d is not f.module.d else None, f.module, f)
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            raise exc("TypeError", "%s() takes %d positional arguments but %d were given" %
                      (f.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            env.d[n] = v
        if a.vararg is not None:
            env.d[a.vararg.arg] = tuple(args[len(pos):])
        for n, v in list(kw.items()):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in env.d:
                    raise exc("TypeError", "%s() got multiple values for argument %r" % (f.name, n))
                env.d[n] = v
                del kw[n]
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env.d:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env.d[n] = f.defaults[j]
                else:
                    raise exc("TypeError", "%s() missing argument %r" % (f.name, n))
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg not in env.d:
                if dn is None:
                    raise exc("TypeError", "%s() missing keyword argument %r" % (f.name, x.arg))
                env.d[x.arg] = d
        if a.kwarg is not None:
            env.d[a.kwarg.arg] = kw
        elif kw:
            raise exc("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, next(iter(kw))))
        return env

    # ------------------------------------------------------ autograd functions
    def apply(self, c, args, kw):
        """torch.autograd.Function.apply: run forward without gradients."""
        ov = self.over.get((c.module.name, c.name + ".apply"))
        if ov is not None:
            return ov(self, c, args, kw, None)
        ctx = self.tmod.Ctx(c)
        old = self.grad
        self.grad = False
        try:
            fwd = c.lookup("forward")
            fwd = fwd.f if isinstance(fwd, Static) else fwd
            out = self.call_func(fwd, [ctx] + list(args), kw)
        finally:
            self.grad = old
        self.events.append(("apply", c, ctx, tuple(args), out))
        return out

    # -------------------------------------------------------------- builtins
    def typeof(self, v):
        if v is None:
            return Type("NoneType")
        if isinstance(v, (bool, B)):
            return Type("bool")
        if isinstance(v, int):
            return Type("int")
        if isinstance(v, (Fraction, float)):
            return Type("float")
        if isinstance(v, S):
            return Type({"i": "int", "f": "float", "c": "complex"}[v.k])
        if self.is_tensor(v):
            return Type("Tensor")
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (Func, Bound, Native)):
            return Type("function")
        if isinstance(v, (str, list, tuple, dict, set, slice, bytes)):
            return Type(type(v).__name__)
        if isinstance(v, range) or isinstance(v, SRange):
            return Type("range")
        return Type(type(v).__name__)

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        ty = self.typeof(v)
        if isinstance(c, Cls):
            if isinstance(v, EnumVal):
                return v.owner is c
            return isinstance(ty, Cls) and ty.derives(c)
        if isinstance(c, ExcCls):
            return isinstance(v, (Exc, Obj)) and self.exc_is(v, c)
        if isinstance(c, Type):
            n = c.name
            if isinstance(ty, Cls):
                nb = ty.native_base()
                return isinstance(nb, Type) and nb.name == n
            if n == "object":
                return True
            if n == ty.name:
                return True
            if n == "int" and ty.name == "bool":
                return True
            if n == "Sequence":
                return ty.name in ("list", "tuple", "str", "range", "bytes")
            if n in ("Iterable", "Collection"):
                return ty.name in ("list", "tuple", "str", "range", "dict", "set")
            if n == "Callable":
                return ty.name == "function"
            if n in ("Number", "Real"):
                return ty.name in ("int", "float", "bool")
            if n == "Integral":
                return ty.name in ("int", "bool")
            if n == "Parameter":
                return self.is_tensor(v) and getattr(v, "param", False)
            return False
        raise Unsupported("isinstance with %r" % (c,))

    def prod(self, xs):
        p, k = P(1), "i"
        for x in xs:
            q, j = pk(x)
            p = p * q
            k = "i" if k == j == "i" else "f"
        return mk(p, k)

    def builtin_type(self, f, args, kw):
        n = f.name
        if n == "int":
            x = args[0] if args else 0
            if isinstance(x, (int, bool)):
                return int(x)
            if isinstance(x, Fraction):
                return int(x)
            if isinstance(x, B):
                return mk(t.b_val(x.b), "i")
            if isinstance(x, S):
                if x.k == "i":
                    return x
                if is_int(x.p):
                    return mk(x.p, "i")
                return S(A("trunc", x.p), "i")
            if self.is_tensor(x):
                v = self.tmod.item(self, x)
                return self.builtin_type(f, [v], {})
            if isinstance(x, str):
                return self.native(lambda: int(x))
            raise exc("TypeError", "int() argument %r" % (x,))
        if n == "float":
            x = args[0] if args else Fraction(0)
            if isinstance(x, str):
                v = self.native(lambda: float(x))
                return v if v in (float("inf"), float("-inf")) or v != v else Fraction(repr(v))
            if isinstance(x, (int, Fraction)):
                return Fraction(x)
            if isinstance(x, float):
                return x
            if isinstance(x, S):
                return S(x.p, "f")
            if isinstance(x, B):
                return S(t.b_val(x.b), "f")
            if self.is_tensor(x):
                v = self.tmod.item(self, x)
                return self.builtin_type(f, [v], {})
            raise exc("TypeError", "float() argument must be a string or a number")
        if n == "bool":
            return self.truth(args[0]) if args else False
        if n == "str":
            return self.to_str(args[0]) if args else ""
        if n == "list":
            return list(self.iterate(args[0])) if args else []
        if n == "tuple":
            return tuple(self.iterate(args[0])) if args else ()
        if n == "set":
            return set(self.iterate(args[0])) if args else set()
        if n == "frozenset":
            return frozenset(self.iterate(args[0])) if args else frozenset()
        if n == "dict":
            d = {}
            if args:
                if isinstance(args[0], dict):
                    d.update(args[0])
                else:
                    for kv in self.iterate(args[0]):
                        k, v = list(self.iterate(kv))
                        d[k] = v
            d.update(kw)
            return d
        if n == "slice":
            return slice(*args)
        if n == "range":
            a, b, c = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
            for x in (a, b, c):
                if isinstance(x, Fraction) or (isinstance(x, S) and x.k == "f") or not isnum(x):
                    raise exc("TypeError", "range() needs integers")
            if not any(isinstance(x, S) for x in (a, b, c)):
                return self.native(lambda: range(a, b, c))
            if self.truth(self.cmpnum(ast.Eq(), c, 0)):
                raise exc("ValueError", "range() arg 3 must not be zero")
            return SRange(a, b, c)
        if n == "type":
            return self.typeof(args[0])
        if n == "object":
            return Obj(Cls("object", [], {}, None))
        if n == "Parameter":
            return self.tmod.parameter(self, *args, **kw)
        if n == "complex":
            return S(A("complex", repr(args)), "c")
        if n == "bytes":
            return b""
        if n == "Size":
            return self.tmod.Size(self.iterate(args[0]) if args else ())
        if n == "device":
            return self.tmod.todev(args[0] if len(args) < 2 or args[1] is None else "%s:%s" % (args[0], args[1]))
        raise Unsupported("constructor %s" % n)

    def make_builtins(self):
        it = self

        def nat(f, name=None):
            return Native(f, name)

        def b_len(x):
            if it.is_tensor(x):
                if not x.shape:
                    raise exc("TypeError", "len() of a 0-d tensor")
                return x.shape[0]
            if isinstance(x, Lazy):
                raise exc("TypeError", "object of type 'generator' has no len()")
            if isinstance(x, SRange):
                raise Unsupported("len of symbolic range")
            if isinstance(x, Obj):
                return it.call(it.getattr(x, "__len__"), [], {})
            if isinstance(x, (int, Fraction, S, B, type(None))):
                raise exc("TypeError", "object has no len()")
            return it.native(lambda: len(x))

        def minmax(sign):
            def f(*args, **kw):
                xs = list(it.iterate(args[0])) if len(args) == 1 else list(args)
                if not xs:
                    if "default" in kw:
                        return kw["default"]
                    raise exc("ValueError", "arg is an empty sequence")
                key = kw.get("key")
                r = xs[0]
                for x in xs[1:]:
                    if key is not None:
                        c = it.cmpnum(ast.Lt(), it.call(key, [x], {}), it.call(key, [r], {}))
                        lt = it.truth(c)
                        r = x if lt == (sign < 0) and (lt or sign > 0) else r
                        continue
                    if it.is_tensor(x) or it.is_tensor(r):
                        raise Unsupported("min/max of tensors")
                    if not isnum(x) or not isnum(r):
                        r = it.native(lambda: max(r, x) if sign > 0 else min(r, x))
                        continue
                    if not isinstance(x, (S, B)) and not isinstance(r, (S, B)):
                        r = (x if x > r else r) if sign > 0 else (x if x < r else r)
                        continue
                    if isinstance(x, float) or isinstance(r, float):
                        v = it.cmpnum(ast.Gt() if sign > 0 else ast.Lt(), x, r)
                        r = x if it.truth(v) else r
                        continue
                    (p, i), (q, j) = pk(r), pk(x)
                    ge = it.path.prove(t.b_lt0(p - q, is_int(p - q)))
                    if ge is None and it.path.prove(t.b_lt0(q - p, is_int(p - q))) is True:
                        ge = False
                    if ge is not None:
                        r = (x if ge else r) if sign > 0 else (r if ge else x)
                    else:
                        k = "i" if i == j == "i" else "f"
                        v = t.mmax(p, q) if sign > 0 else t.mmin(p, q)
                        if k == "f":
                            for a in v.atoms():
                                if t.key(a)[0] == "max":
                                    FLOATS.add(a)
                        r = mk(v, k)
                return r
            return f

        def b_sum(xs, start=0):
            r = start
            for x in it.iterate(xs):
                r = it.binop(ast.Add(), r, x)
            return r

        def b_any(xs):
            for x in it.iterate(xs):
                if it.truth(x):
                    return True
            return False

        def b_all(xs):
            for x in it.iterate(xs):
                if not it.truth(x):
                    return False
            return True

        def b_abs(x):
            if it.is_tensor(x):
                return it.tmod.call_method(it, x, "abs")
            if isinstance(x, S):
                lt = it.path.prove(t.b_lt0(x.p, is_int(x.p)))
                if lt is False:
                    return x
                if lt is True:
                    return mk(-x.p, x.k)
                v = S(A("abs", x.p), x.k)
                if x.k == "f":
                    FLOATS.add(v.p.single())
                return v
            return it.native(lambda: abs(x))

        def b_enumerate(xs, start=0):
            return Lazy([(start + i, x) for i, x in enumerate(it.iterate(xs))])

        def b_zip(*xs, **kw):
            ls = [list(it.iterate(x)) for x in xs]
            if kw.get("strict") and len({len(l) for l in ls}) > 1:
                raise exc("ValueError", "zip() arguments have different lengths")
            return Lazy(zip(*ls))

        def b_next(x, *d):
            if isinstance(x, Lazy):
                if x.pos < len(x.items):
                    x.pos += 1
                    return x.items[x.pos - 1]
                if d:
                    return d[0]
                raise exc("StopIteration")
            raise Unsupported("next")

        def b_getattr(o, n, *d):
            try:
                return it.getattr(o, n)
            except PyRaise as e:
                if d and it.exc_is(e.exc, ExcCls("AttributeError")):
                    return d[0]
                raise

        def b_hasattr(o, n):
            try:
                it.getattr(o, n)
                return True
            except PyRaise:
                return False

        def b_round(x, n=None):
            if isinstance(x, (int, Fraction)):
                return round(x) if n is None else Fraction(round(x, n))
            p, k = pk(x)
            if k == "i":
                return x
            return S(A("round", p), "i") if n is None else S(A("fn", "round", p), "f")

        def b_sorted(xs, key=None, reverse=False):
            ys = list(it.iterate(xs))
            if any(isinstance(y, (S, B)) for y in ys):
                raise Unsupported("sorted of symbolic values")
            if key is not None:
                ys.sort(key=lambda y: it.call(key, [y], {}), reverse=reverse)
            else:
                ys = it.native(lambda: sorted(ys, reverse=reverse))
            return ys

        d = {
            "len": nat(b_len), "min": nat(minmax(-1), "min"), "max": nat(minmax(1), "max"), "sum": nat(b_sum),
            "any": nat(b_any), "all": nat(b_all), "abs": nat(b_abs), "enumerate": nat(b_enumerate), "zip": nat(b_zip),
            "next": nat(b_next), "iter": nat(lambda x: Lazy(it.iterate(x))), "isinstance": nat(it.isinstance),
            "getattr": nat(b_getattr), "hasattr": nat(b_hasattr), "setattr": nat(lambda o, n, v: it.setattr(o, n, v)),
            "round": nat(b_round), "sorted": nat(b_sorted),
            "reversed": nat(lambda x: Lazy(list(it.iterate(x))[::-1])),
            "map": nat(lambda f, *xs: Lazy([it.call(f, list(a), {}) for a in zip(*[list(it.iterate(x)) for x in xs])])),
            "filter": nat(lambda f, xs: Lazy([x for x in it.iterate(xs) if it.truth(x if f is None else it.call(f, [x], {}))])),
            "print": nat(lambda *a, **k: None), "id": nat(lambda x: id(x)), "repr": nat(lambda x: it.to_str(x)),
            "callable": nat(lambda x: isinstance(x, (Func, Native, Cls, Bound)) or hasattr(x, "py_call")),
            "issubclass": nat(lambda a, b: isinstance(a, Cls) and a.derives(b)),
            "staticmethod": nat(lambda f: Static(f)), "divmod": nat(lambda a, b: (it.arith(ast.FloorDiv(), a, b), it.arith(ast.Mod(), a, b))),
            "pow": nat(lambda a, b: it.binop(ast.Pow(), a, b)),
            "NotImplemented": Opq("NotImplemented"), "Ellipsis": Ellipsis, "__debug__": True,
        }
        for n in ("int", "float", "bool", "str", "list", "tuple", "set", "dict", "slice", "range", "type", "object",
                  "complex", "bytes", "frozenset"):
            d[n] = Type(n)
        for n in EXCS:
            d[n] = ExcCls(n)
        return d

    @property
    def tmod(self):
        from . import pytensor
        return pytensor


def _names(x):
    return [n.id for n in ast.walk(x) if isinstance(n, ast.Name)]


def cmp_formula(op, p, q, integer):
    if isinstance(op, ast.Lt):
        return t.b_lt0(p - q, integer)
    if isinstance(op, ast.Gt):
        return t.b_lt0(q - p, integer)
    if isinstance(op, ast.LtE):
        return t.b_not(t.b_lt0(q - p, integer))
    if isinstance(op, ast.GtE):
        return t.b_not(t.b_lt0(p - q, integer))
    if isinstance(op, ast.Eq):
        return t.b_eq0(p - q)
    if isinstance(op, ast.NotEq):
        return t.b_not(t.b_eq0(p - q))
    raise Unsupported("comparison")


def _live(v):
    i = 0
    while i < len(v):
        yield v[i]
        i += 1


def _lazy(v):
    while v.pos < len(v.items):
        v.pos += 1
        yield v.items[v.pos - 1]
