"""C / CUDA front end: libclang (through ctypes) -> small typed AST.

The translation units are parsed with exactly the macros CMake passes
(DW_NDIM, DW_ACCURACY, DW_DTYPE, DW_DEVICE), so the analyses work on the
type-checked, macro-expanded program and not on its text.
"""
import ctypes as C
import hashlib
import os
import pickle
import sys

sys.setrecursionlimit(20000)

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "stubs")
REPO = os.environ.get("DWSA_REPO", "/repo")
SRC = os.path.join(REPO, "src", "deepwave")
CACHE = os.path.join(os.path.dirname(HERE), ".cache")
VERSION = "8"

_LIBS = ["/usr/lib/llvm-18/lib/libclang-18.so.1", "/usr/lib/llvm-18/lib/libclang.so.1"]


class FrontError(Exception):
    """The source could not be analysed (an error of the check, never a pass)."""


class _Cur(C.Structure):
    _fields_ = [("kind", C.c_int), ("xdata", C.c_int), ("data", C.c_void_p * 3)]


class _Str(C.Structure):
    _fields_ = [("data", C.c_void_p), ("f", C.c_uint)]


class _Ty(C.Structure):
    _fields_ = [("kind", C.c_int), ("data", C.c_void_p * 2)]


class _Loc(C.Structure):
    _fields_ = [("p", C.c_void_p * 2), ("i", C.c_uint)]


class _Range(C.Structure):
    _fields_ = [("p", C.c_void_p * 2), ("b", C.c_uint), ("e", C.c_uint)]


class _Tok(C.Structure):
    _fields_ = [("i", C.c_uint * 4), ("p", C.c_void_p)]


_lib = None
_CB = C.CFUNCTYPE(C.c_int, _Cur, _Cur, C.c_void_p)


def _L():
    global _lib
    if _lib is not None:
        return _lib
    lib = None
    for p in _LIBS:
        if os.path.exists(p):
            lib = C.CDLL(p)
            break
    if lib is None:
        raise FrontError("libclang not found")

    def sig(name, res, *args):
        f = getattr(lib, name)
        f.restype = res
        f.argtypes = list(args)

    sig("clang_createIndex", C.c_void_p, C.c_int, C.c_int)
    sig("clang_disposeIndex", None, C.c_void_p)
    sig("clang_parseTranslationUnit", C.c_void_p, C.c_void_p, C.c_char_p,
        C.POINTER(C.c_char_p), C.c_int, C.c_void_p, C.c_uint, C.c_uint)
    sig("clang_disposeTranslationUnit", None, C.c_void_p)
    sig("clang_getTranslationUnitCursor", _Cur, C.c_void_p)
    sig("clang_getCursorSpelling", _Str, _Cur)
    sig("clang_getCString", C.c_char_p, _Str)
    sig("clang_disposeString", None, _Str)
    sig("clang_visitChildren", C.c_uint, _Cur, _CB, C.c_void_p)
    sig("clang_getNumDiagnostics", C.c_uint, C.c_void_p)
    sig("clang_getDiagnostic", C.c_void_p, C.c_void_p, C.c_uint)
    sig("clang_getDiagnosticSeverity", C.c_int, C.c_void_p)
    sig("clang_formatDiagnostic", _Str, C.c_void_p, C.c_uint)
    sig("clang_getCursorKindSpelling", _Str, C.c_int)
    sig("clang_getCursorType", _Ty, _Cur)
    sig("clang_getCanonicalType", _Ty, _Ty)
    sig("clang_getTypeSpelling", _Str, _Ty)
    sig("clang_getCursorLocation", _Loc, _Cur)
    sig("clang_getExpansionLocation", None, _Loc, C.POINTER(C.c_void_p),
        C.POINTER(C.c_uint), C.POINTER(C.c_uint), C.POINTER(C.c_uint))
    sig("clang_getFileName", _Str, C.c_void_p)
    sig("clang_getCursorBinaryOperatorKind", C.c_int, _Cur)
    sig("clang_getCursorUnaryOperatorKind", C.c_int, _Cur)
    sig("clang_Cursor_Evaluate", C.c_void_p, _Cur)
    sig("clang_EvalResult_getKind", C.c_int, C.c_void_p)
    sig("clang_EvalResult_getAsLongLong", C.c_longlong, C.c_void_p)
    sig("clang_EvalResult_getAsDouble", C.c_double, C.c_void_p)
    sig("clang_EvalResult_getAsStr", C.c_char_p, C.c_void_p)
    sig("clang_EvalResult_dispose", None, C.c_void_p)
    sig("clang_Cursor_getVarDeclInitializer", _Cur, _Cur)
    sig("clang_Cursor_isNull", C.c_int, _Cur)
    sig("clang_getCursorReferenced", _Cur, _Cur)
    sig("clang_hashCursor", C.c_uint, _Cur)
    sig("clang_equalCursors", C.c_uint, _Cur, _Cur)
    sig("clang_getCursorExtent", _Range, _Cur)
    sig("clang_tokenize", None, C.c_void_p, _Range, C.POINTER(C.POINTER(_Tok)), C.POINTER(C.c_uint))
    sig("clang_disposeTokens", None, C.c_void_p, C.POINTER(_Tok), C.c_uint)
    sig("clang_getTokenSpelling", _Str, C.c_void_p, _Tok)
    sig("clang_getTokenLocation", _Loc, C.c_void_p, _Tok)
    sig("clang_isExpression", C.c_uint, C.c_int)
    sig("clang_isStatement", C.c_uint, C.c_int)
    sig("clang_isDeclaration", C.c_uint, C.c_int)
    sig("clang_getRangeStart", _Loc, _Range)
    sig("clang_getRangeEnd", _Loc, _Range)
    sig("clang_Cursor_getStorageClass", C.c_int, _Cur)
    sig("clang_isCursorDefinition", C.c_uint, _Cur)
    _lib = lib
    return lib


def _s(st):
    lib = _lib
    r = lib.clang_getCString(st)
    r = r.decode() if r is not None else ""
    lib.clang_disposeString(st)
    return r


# Binary operator kinds of libclang 18 (CXBinaryOperatorKind)
_BIN = {1: ".*", 2: "->*", 3: "*", 4: "/", 5: "%", 6: "+", 7: "-", 8: "<<",
        9: ">>", 10: "<=>", 11: "<", 12: ">", 13: "<=", 14: ">=", 15: "==",
        16: "!=", 17: "&", 18: "^", 19: "|", 20: "&&", 21: "||", 22: "=",
        23: "*=", 24: "/=", 25: "%=", 26: "+=", 27: "-=", 28: "<<=", 29: ">>=",
        30: "&=", 31: "^=", 32: "|=", 33: ","}
_UN = {1: "p++", 2: "p--", 3: "++", 4: "--", 5: "&", 6: "*", 7: "+", 8: "-",
       9: "~", 10: "!", 11: "__real", 12: "__imag", 13: "__ext", 14: "co_await"}


class N:
    """AST node: k kind, c children, v value/name, t type, line."""
    __slots__ = ("k", "c", "v", "t", "line", "ref", "x")

    def __init__(self, k, c=(), v=None, t="", line=0, ref=None, x=None):
        self.k = k
        self.c = list(c)
        self.v = v
        self.t = t
        self.line = line
        self.ref = ref
        self.x = x

    def __repr__(self):
        return "(%s%s%s)" % (self.k, "" if self.v is None else ":" + str(self.v),
                             (" " + " ".join(map(repr, self.c))) if self.c else "")

    def __getstate__(self):
        return (self.k, self.c, self.v, self.t, self.line, self.ref, self.x)

    def __setstate__(self, s):
        self.k, self.c, self.v, self.t, self.line, self.ref, self.x = s


def walk(n):
    yield n
    for c in n.c:
        if c is not None:
            yield from walk(c)


def _omp_pragmas(path):
    """{last line of the pragma: its text} for OpenMP pragmas of a file."""
    out = {}
    with open(path) as fh:
        lines = fh.read().split("\n")
    i = 0
    while i < len(lines):
        t = lines[i].strip()
        if t.startswith("#") and t[1:].strip().startswith("pragma"):
            while t.endswith("\\") and i + 1 < len(lines):
                i += 1
                t = t[:-1] + " " + lines[i].strip()
            body = t[1:].strip()[len("pragma"):].strip()
            if body.startswith("omp"):
                out[i + 1] = " ".join(body.split())
        i += 1
    return out


class _Conv:
    def __init__(self, tu, fname):
        self.lib = _L()
        self.tu = tu
        self.fname = os.path.realpath(fname)
        self.kindname = {}
        self.decl_ids = {}
        self.pragmas = _omp_pragmas(self.fname)
        self._forlines = []

    def kname(self, k):
        if k not in self.kindname:
            self.kindname[k] = _s(self.lib.clang_getCursorKindSpelling(k))
        return self.kindname[k]

    def children(self, cur):
        out = []

        def cb(c, p, d):
            out.append(_Cur(c.kind, c.xdata, c.data))
            return 1
        f = _CB(cb)
        self.lib.clang_visitChildren(cur, f, None)
        return out

    def loc(self, cur):
        f = C.c_void_p()
        l, co, o = C.c_uint(), C.c_uint(), C.c_uint()
        self.lib.clang_getExpansionLocation(self.lib.clang_getCursorLocation(cur),
                                            C.byref(f), C.byref(l), C.byref(co), C.byref(o))
        return f.value, l.value, o.value

    def filename(self, cur):
        f, l, o = self.loc(cur)
        if not f:
            return ""
        return os.path.realpath(_s(self.lib.clang_getFileName(f)))

    def spelling(self, cur):
        return _s(self.lib.clang_getCursorSpelling(cur))

    def typ(self, cur):
        return _s(self.lib.clang_getTypeSpelling(self.lib.clang_getCursorType(cur)))

    def evaluate(self, cur):
        e = self.lib.clang_Cursor_Evaluate(cur)
        if not e:
            return None
        k = self.lib.clang_EvalResult_getKind(e)
        r = None
        if k == 1:
            r = self.lib.clang_EvalResult_getAsLongLong(e)
        elif k == 2:
            r = self.lib.clang_EvalResult_getAsDouble(e)
        elif k in (3, 4, 5):
            v = self.lib.clang_EvalResult_getAsStr(e)
            r = v.decode() if v is not None else ""
        self.lib.clang_EvalResult_dispose(e)
        return r

    def declid(self, cur):
        """Stable identifier of a referenced declaration."""
        h = (self.lib.clang_hashCursor(cur), self.spelling(cur))
        if h not in self.decl_ids:
            self.decl_ids[h] = "%s#%d" % (h[1], len(self.decl_ids))
        return self.decl_ids[h]

    def tokens(self, cur):
        tp = C.POINTER(_Tok)()
        n = C.c_uint()
        rng = self.lib.clang_getCursorExtent(cur)
        self.lib.clang_tokenize(self.tu, rng, C.byref(tp), C.byref(n))
        out = []
        for i in range(n.value):
            sp = _s(self.lib.clang_getTokenSpelling(self.tu, tp[i]))
            f = C.c_void_p()
            l, co, o = C.c_uint(), C.c_uint(), C.c_uint()
            self.lib.clang_getExpansionLocation(
                self.lib.clang_getTokenLocation(self.tu, tp[i]), C.byref(f),
                C.byref(l), C.byref(co), C.byref(o))
            out.append((sp, o.value))
        self.lib.clang_disposeTokens(self.tu, tp, n)
        return out

    # ---- expressions / statements -------------------------------------
    def conv(self, cur):
        lib = self.lib
        k = self.kname(cur.kind)
        line = self.loc(cur)[1]
        if k in ("UnexposedExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr",
                 "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr"):
            ch = [c for c in self.children(cur) if lib.clang_isExpression(c.kind)]
            if k in ("UnexposedExpr", "ParenExpr"):
                if len(ch) == 1:
                    inner = self.conv(ch[0])
                    if k == "UnexposedExpr":
                        t = self.typ(cur)
                        if inner.k in ("int",) and _isfloat(t):
                            return N("cast", [inner], t, t, line)
                        if t and inner.t and _isfloat(inner.t) and _isint(t):
                            return N("cast", [inner], t, t, line)
                    return inner
                return N("opaque", [self.conv(c) for c in ch], k, self.typ(cur), line)
            t = self.typ(cur)
            if len(ch) >= 1:
                return N("cast", [self.conv(ch[-1])], t, t, line)
            return N("opaque", [], k, t, line)
        if k == "IntegerLiteral":
            v = self.evaluate(cur)
            return N("int", [], v, self.typ(cur), line)
        if k == "FloatingLiteral":
            tk = self.tokens(cur)
            txt = tk[0][0] if tk else None
            v = self.evaluate(cur)
            return N("float", [], v, self.typ(cur), line, x=txt)
        if k == "CharacterLiteral":
            return N("int", [], self.evaluate(cur), self.typ(cur), line)
        if k in ("CXXBoolLiteralExpr",):
            tk = self.tokens(cur)
            v = self.evaluate(cur)
            if v is None and tk:
                v = 1 if tk[0][0] == "true" else 0
            return N("int", [], int(v or 0), "bool", line)
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return N("int", [], 0, self.typ(cur), line)
        if k == "StringLiteral":
            return N("str", [], self.spelling(cur), self.typ(cur), line)
        if k == "DeclRefExpr":
            r = lib.clang_getCursorReferenced(cur)
            rk = self.kname(r.kind)
            if rk == "EnumConstantDecl":
                return N("int", [], self.evaluate(cur), self.typ(cur), line)
            return N("var", [], self.spelling(cur), self.typ(cur), line,
                     ref=self.declid(r))
        if k == "BinaryOperator":
            ch = self.children(cur)
            op = _BIN.get(lib.clang_getCursorBinaryOperatorKind(cur), "?")
            a, b = self.conv(ch[0]), self.conv(ch[1])
            if op == "=":
                return N("assign", [a, b], "=", self.typ(cur), line)
            return N("bin", [a, b], op, self.typ(cur), line)
        if k == "CompoundAssignOperator":
            ch = self.children(cur)
            op = _BIN.get(lib.clang_getCursorBinaryOperatorKind(cur), "?")
            return N("assign", [self.conv(ch[0]), self.conv(ch[1])], op, self.typ(cur), line)
        if k == "UnaryOperator":
            ch = self.children(cur)
            op = _UN.get(lib.clang_getCursorUnaryOperatorKind(cur), "?")
            return N("un", [self.conv(ch[0])], op, self.typ(cur), line)
        if k == "ConditionalOperator":
            return N("cond", [self.conv(c) for c in self.children(cur)], None, self.typ(cur), line)
        if k == "ArraySubscriptExpr":
            ch = self.children(cur)
            return N("idx", [self.conv(ch[0]), self.conv(ch[1])], None, self.typ(cur), line)
        if k == "MemberRefExpr":
            ch = [c for c in self.children(cur) if lib.clang_isExpression(c.kind)]
            return N("member", [self.conv(c) for c in ch], self.spelling(cur), self.typ(cur), line)
        if k == "CallExpr":
            return self.conv_call(cur, line)
        if k == "InitListExpr":
            return N("initlist", [self.conv(c) for c in self.children(cur)
                                  if lib.clang_isExpression(c.kind)], None, self.typ(cur), line)
        if k == "UnaryExpr":  # sizeof and friends
            tk = self.tokens(cur)
            v = self.evaluate(cur)
            return N("sizeof", [], v, self.typ(cur), line, x=" ".join(t[0] for t in tk))
        # statements
        if k == "CompoundStmt":
            return N("block", [self.conv(c) for c in self.children(cur)], None, "", line)
        if k == "DeclStmt":
            out = []
            for c in self.children(cur):
                ck = self.kname(c.kind)
                if ck == "VarDecl":
                    out.append(self.conv_var(c))
                elif lib.clang_isDeclaration(c.kind):
                    continue
            return N("decls", out, None, "", line)
        if k == "VarDecl":
            return self.conv_var(cur)
        if k == "IfStmt":
            return N("if", [self.conv(c) for c in self.children(cur)], None, "", line)
        if k == "ForStmt":
            return self.conv_for(cur, line)
        if k == "WhileStmt":
            ch = self.children(cur)
            return N("while", [self.conv(ch[0]), self.conv(ch[1])], None, "", line)
        if k == "DoStmt":
            ch = self.children(cur)
            return N("do", [self.conv(ch[0]), self.conv(ch[1])], None, "", line)
        if k == "ReturnStmt":
            return N("return", [self.conv(c) for c in self.children(cur)], None, "", line)
        if k == "BreakStmt":
            return N("break", line=line)
        if k == "ContinueStmt":
            return N("continue", line=line)
        if k == "NullStmt":
            return N("block", line=line)
        if k == "SwitchStmt":
            return N("switch", [self.conv(c) for c in self.children(cur)], None, "", line)
        if k == "CaseStmt":
            return N("case", [self.conv(c) for c in self.children(cur)], None, "", line)
        if k == "DefaultStmt":
            return N("default", [self.conv(c) for c in self.children(cur)], None, "", line)
        if k.startswith("OMP"):
            ch = self.children(cur)
            conv = [self.conv(c) for c in ch]
            clauses = [x for x in conv if x.k not in ("for", "block", "while")]
            bodies = [x for x in conv if x.k in ("for", "block", "while", "omp")]
            tk = self.tokens(cur)
            return N("omp", bodies[-1:] if bodies else [], k, "", line,
                     x=[repr(c) for c in clauses])
        ch = self.children(cur)
        sub = [self.conv(c) for c in ch if lib.clang_isExpression(c.kind)
               or lib.clang_isStatement(c.kind)]
        if len(sub) == 1 and k in ("UnexposedStmt",):
            return sub[0]
        return N("opaque", sub, k, self.typ(cur) if lib.clang_isExpression(cur.kind) else "", line)

    def conv_call(self, cur, line):
        lib = self.lib
        ch = [c for c in self.children(cur) if lib.clang_isExpression(c.kind)]
        name = self.spelling(cur)
        sub = [self.conv(c) for c in ch]
        t = self.typ(cur)
        r = lib.clang_getCursorReferenced(cur)
        rk = self.kname(r.kind) if not lib.clang_Cursor_isNull(r) else ""
        if rk == "CXXConstructor":
            return N("construct", sub, name, t, line)
        if rk == "CXXConversion" or name.startswith("operator "):
            # conversion operator: transparent
            if sub and sub[0].k == "member" and sub[0].c:
                return sub[0].c[0]
            if sub:
                return sub[0]
        if name.startswith("operator"):
            op = name[len("operator"):]
            args = [x for x in sub if not (x.k == "var" and str(x.v).startswith("operator"))]
            if op == "&" and len(args) == 1:
                return N("un", args, "&", t, line)
            return N("call", args, name, t, line)
        launch = None
        # Kernel launch: libclang lists callee, arguments and then the
        # configuration call (a call to cudaConfigureCall / push config).
        cfg = [x for x in sub if x.k == "call" and x.v in
               ("cudaConfigureCall", "__cudaPushCallConfiguration")]
        if cfg:
            launch = cfg[0]
            sub = [x for x in sub if x is not cfg[0]]
        callee = sub[0] if sub else N("opaque")
        args = sub[1:]
        if callee.k == "var":
            return N("launch" if launch else "call", args + ([launch] if launch else []),
                     callee.v, t, line, ref=callee.ref)
        if callee.k == "member":
            return N("mcall", [callee.c[0] if callee.c else N("opaque")] + args, callee.v, t, line)
        return N("call", args, name or "?", t, line)

    def conv_var(self, cur):
        lib = self.lib
        line = self.loc(cur)[1]
        init = lib.clang_Cursor_getVarDeclInitializer(cur)
        ini = None
        if not lib.clang_Cursor_isNull(init):
            ini = self.conv(init)
        st = lib.clang_Cursor_getStorageClass(cur)
        return N("vardecl", [ini] if ini is not None else [], self.spelling(cur),
                 self.typ(cur), line, ref=self.declid(cur), x=st)

    def conv_for(self, cur, line):
        ch = self.children(cur)
        prag = None
        f, ln, _ = self.loc(cur)
        if self.pragmas and self.filename(cur) == self.fname:
            for end in sorted(self.pragmas):
                if end < ln and not any(end < o < ln for o in self._forlines):
                    prag = self.pragmas[end]
            self._forlines.append(ln)
        if len(ch) == 4:
            return N("for", [self.conv(c) for c in ch], None, "", line, x=prag)
        toks = self.tokens(cur)
        depth = 0
        semis = []
        close = None
        for sp, off in toks:
            if sp == "(":
                depth += 1
            elif sp == ")":
                depth -= 1
                if depth == 0:
                    close = off
                    break
            elif sp == ";" and depth == 1:
                semis.append(off)
        parts = [None, None, None, None]
        for c in ch[:-1]:
            o = self.loc(c)[2]
            if len(semis) >= 1 and o <= semis[0]:
                parts[0] = self.conv(c)
            elif len(semis) >= 2 and o <= semis[1]:
                parts[1] = self.conv(c)
            else:
                parts[2] = self.conv(c)
        parts[3] = self.conv(ch[-1])
        for i in range(3):
            if parts[i] is None:
                parts[i] = N("block", line=line)
        return N("for", parts, None, "", line, x=prag)

    def functions(self):
        """All function definitions and global variables below SRC."""
        funcs, gvars, protos = {}, {}, {}
        src = os.path.realpath(SRC)

        def visit(cur):
            for c in self.children(cur):
                k = self.kname(c.kind)
                if k in ("Namespace", "LinkageSpec", "UnexposedDecl", "linkage specification"):
                    visit(c)
                    continue
                if k not in ("FunctionDecl", "VarDecl"):
                    continue
                fn = self.filename(c)
                if not fn.startswith(src):
                    continue
                if k == "VarDecl":
                    v = self.conv_var(c)
                    gvars[v.v] = v
                    continue
                body = None
                params = []
                attrs = []
                for cc in self.children(c):
                    ck = self.kname(cc.kind)
                    if ck == "ParmDecl":
                        t = self.lib.clang_getCursorType(cc)
                        params.append((self.spelling(cc), self.typ(cc), self.declid(cc)))
                    elif ck == "CompoundStmt":
                        body = self.conv(cc)
                    elif ck.startswith("attribute"):
                        attrs.append(ck)
                name = self.spelling(c)
                f, line, _ = self.loc(c)
                fi = Func(name, params, body, os.path.basename(fn), line,
                          self.lib.clang_Cursor_getStorageClass(c), attrs,
                          self.typ(c), self.declid(c))
                if body is not None:
                    funcs[name] = fi
                else:
                    protos[name] = fi
        visit(self.lib.clang_getTranslationUnitCursor(self.tu))
        return funcs, gvars, protos


def _isfloat(t):
    return any(x in t.split() for x in ("float", "double"))


def _isint(t):
    t = t.replace("const", "").strip()
    return t in ("int", "long", "unsigned int", "unsigned long", "int64_t", "size_t",
                 "unsigned char", "uint8_t", "char", "short", "long long", "unsigned", "int32_t", "bool", "_Bool")


class Func:
    __slots__ = ("name", "params", "body", "file", "line", "storage", "attrs", "type", "ref")

    def __init__(self, *a):
        (self.name, self.params, self.body, self.file, self.line, self.storage,
         self.attrs, self.type, self.ref) = a

    def __getstate__(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __setstate__(self, st):
        for s, v in zip(self.__slots__, st):
            setattr(self, s, v)


class TU:
    def __init__(self, path, funcs, gvars, protos, cfg):
        self.path = path
        self.funcs = funcs
        self.gvars = gvars
        self.protos = protos
        self.cfg = cfg


def _deps_hash():
    h = hashlib.sha256(VERSION.encode())
    for d in (SRC, STUBS):
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".c", ".cu")):
                h.update(f.encode())
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


_dh = None
_mem = {}


def parse(fname, ndim=None, acc=None, dtype="float", openmp=True, extra=()):
    """Parse SRC/fname for one build configuration and return a TU."""
    global _dh
    key = (fname, ndim, acc, dtype, openmp, tuple(extra))
    if key in _mem:
        return _mem[key]
    if _dh is None:
        _dh = _deps_hash()
    path = os.path.join(SRC, fname)
    if not os.path.exists(path):
        raise FrontError("source file %s does not exist" % path)
    cu = fname.endswith(".cu")
    ck = hashlib.sha256((_dh + repr(key)).encode()).hexdigest()
    cpath = os.path.join(CACHE, ck + ".pkl")
    if os.path.exists(cpath):
        try:
            with open(cpath, "rb") as fh:
                tu = pickle.load(fh)
            _mem[key] = tu
            return tu
        except Exception:
            pass
    args = ["-I/usr/lib/llvm-18/lib/clang/18/include", "-I" + STUBS]
    if ndim is not None:
        args.append("-DDW_NDIM=%d" % ndim)
    if acc is not None:
        args.append("-DDW_ACCURACY=%d" % acc)
    if dtype is not None:
        args.append("-DDW_DTYPE=%s" % dtype)
    args.append("-DDW_DEVICE=%s" % ("cuda" if cu else "cpu"))
    args += list(extra)
    if cu:
        args += ["-xcuda", "--cuda-host-only", "-nocudainc", "-nocudalib",
                 "-include", "cuda_stub.h", "-std=c++17"]
    elif openmp:
        # _OPENMP selects the same preprocessor branches as the real build;
        # the pragmas themselves are attached to their loops separately.
        args += ["-D_OPENMP=201511", "-Wno-everything"]
    lib = _L()
    a = (C.c_char_p * len(args))(*[x.encode() for x in args])
    idx = lib.clang_createIndex(0, 0)
    tu = lib.clang_parseTranslationUnit(idx, path.encode(), a, len(args), None, 0, 0)
    if not tu:
        raise FrontError("libclang could not parse " + fname)
    errs = []
    for i in range(lib.clang_getNumDiagnostics(tu)):
        d = lib.clang_getDiagnostic(tu, i)
        if lib.clang_getDiagnosticSeverity(d) >= 3:
            errs.append(_s(lib.clang_formatDiagnostic(d, 1)))
    if errs:
        raise FrontError("%s (ndim=%s acc=%s) does not parse: %s" % (fname, ndim, acc, errs[:3]))
    cv = _Conv(tu, path)
    funcs, gvars, protos = cv.functions()
    lib.clang_disposeTranslationUnit(tu)
    lib.clang_disposeIndex(idx)
    out = TU(path, funcs, gvars, protos, dict(ndim=ndim, acc=acc, dtype=dtype, cu=cu))
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = cpath + ".%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(out, fh)
        os.replace(tmp, cpath)
    except OSError:
        pass
    _mem[key] = out
    return out
