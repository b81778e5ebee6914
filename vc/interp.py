"""Symbolic execution of the Clang AST (expressions, statements, calls)."""
from core import *
import cxx


class CStr:
    def __init__(self, s):
        self.s = s


class StatusStr:
    def __init__(self, code):
        self.code = code


class BoolPtr:
    """result of strstr etc.: only nullness matters"""
    def __init__(self, nonnull):
        self.nonnull = nonnull


class InitList:
    def __init__(self, vs):
        self.vs = vs


class Frame:
    def __init__(self, func, this, tu, locs=None):
        self.func, self.this, self.tu = func, this, tu
        self.locals = locs if locs is not None else {}
        self.names = {}


PASS = {"ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "FullExpr", "SubstNonTypeTemplateParmExpr",
        "CXXStdInitializerListExpr", "CXXRewrittenBinaryOperator"}
LOGLEVEL_FATAL = "kFatal"


def nstr(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""


def strip_expr(n):
    while n.get("kind") in PASS or n.get("kind") in ("ImplicitCastExpr", "MaterializeTemporaryExpr"):
        n = n["inner"][0]
    return n


class Interp(CoreCtx):
    # ------------------------------------------------------------ helpers
    @property
    def fr(self):
        return self.frames[-1]

    def where(self):
        return " > ".join(f.func.qname if f.func else "lambda" for f in self.frames)

    def T(self, n):
        return self.ty.parse(nstr(n))

    def rv(self, x):
        if isinstance(x, Loc):
            return self.load(x)
        return x

    def as_loc(self, x, t):
        if isinstance(x, Loc):
            return x
        return self.cell(self.coerce(x, t), t)

    def safety(self, name, cond):
        self.oblige("safety:" + name, cond, ("safety",), "safety")

    def evr(self, n):
        v = self.rv(self.ev(n))
        if z3.is_expr(v):
            self.rangefact(v, self.T(n))
        return v

    def is_move(self, n):
        n = strip_expr(n)
        if n.get("kind") == "CallExpr":
            c = strip_expr(n["inner"][0])
            return c.get("kind") == "DeclRefExpr" and c["referencedDecl"].get("name") == "move"
        return n.get("valueCategory") == "xvalue" and n.get("kind") == "CXXStaticCastExpr"

    def take(self, n):
        """evaluate an argument whose value is stored (copied or moved)"""
        x = self.ev(n)
        if isinstance(x, Loc):
            v = self.load(x)
            if self.is_move(n):
                self.moved_from(x)
            return v
        return x

    def moved_from(self, loc):
        t = self.typeof(loc)
        if t[0] in ("ptr",):
            self.store(loc, z3.IntVal(0))
        elif t[0] in ("seq", "set", "map", "uniq") and not (t[0] == "seq" and t[2] is not None):
            self.store(loc, default(self.ty, t))
        elif t[0] in ("struct", "tuple"):
            for f, ft in self.ty.fields(t[1]):
                if ft[0] in ("ptr", "seq", "set", "map", "uniq", "struct", "tuple"):
                    if f != "$bs":
                        self.moved_from(loc.f(f))

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        k = n["kind"]
        if k in PASS:
            return self.ev(n["inner"][0])
        m = getattr(self, "x_" + k, None)
        if m is None:
            unsup("expression kind %s in %s" % (k, self.where()))
        return m(n)

    def x_IntegerLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def x_CharacterLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def x_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def x_StringLiteral(self, n):
        import ast
        s = n["value"]
        try:
            s = ast.literal_eval(s)
        except Exception:
            s = s.strip('"')
        return CStr(s)

    def x_PredefinedExpr(self, n):
        return CStr("")

    def x_SourceLocExpr(self, n):
        return CStr("")

    def x_FloatingLiteral(self, n):
        return OpaqueV("float")

    def x_CXXNullPtrLiteralExpr(self, n):
        return RawV(None)

    def x_CXXThisExpr(self, n):
        if self.fr.this is None:
            unsup("this outside method")
        return RawV(self.fr.this)

    def x_MaterializeTemporaryExpr(self, n):
        x = self.ev(n["inner"][0])
        if isinstance(x, (Loc, PairRef, LamV, FuncRef, ItV, RawV, CStr, OpaqueV, StatusStr, BoolPtr, InitList)):
            return x
        t = self.T(n)
        return self.cell(self.coerce(x, t), t)

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        k = d["kind"]
        if k == "EnumConstantDecl":
            nd = self.eng.prog.id2node.get((self.fr.tu, d["id"]))
            if nd is not None and "$value" in nd:
                return z3.IntVal(nd["$value"])
            if d["name"] in self.eng.prog.enumconst:
                return z3.IntVal(self.eng.prog.enumconst[d["name"]])
            m = re.match(r"^[A-Za-z0-9]+_(\w+)$", d["name"])
            if m and m.group(1) in self.eng.prog.enumconst:
                return z3.IntVal(self.eng.prog.enumconst[m.group(1)])
            unsup("enum constant " + d["name"])
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return FuncRef(d, n)
        for f in (self.fr,):
            if d["id"] in f.locals:
                return f.locals[d["id"]]
        g = self.eng.prog.globals.get((self.fr.tu, d["id"]))
        if g is None:
            gs = self.eng.prog.globals_by_name.get(d.get("name"))
            g = gs[0] if gs else None
        if g is not None:
            return self.global_value(g)
        if d.get("name") in self.eng.prog.enumconst:
            return z3.IntVal(self.eng.prog.enumconst[d["name"]])
        if d.get("name") == "nullopt":
            return OpaqueV("nullopt")
        if d.get("name") in ("cout", "cerr", "endl", "_1", "_2", "_3", "npos", "nothrow"):
            if d["name"] == "npos":
                return z3.IntVal(U64 - 1)
            return OpaqueV(d["name"])
        unsup("unknown variable %s (%s) in %s" % (d.get("name"), k, self.where()))

    def global_value(self, g):
        if "const" not in g.get("type", {}).get("qualType", "") and not g.get("constexpr"):
            unsup("mutable global " + g.get("name", "?"))
        init = [c for c in g.get("inner", []) if "Attr" not in c["kind"] and "Comment" not in c["kind"]]
        if not init:
            gs = [x for x in self.eng.prog.globals_by_name.get(g["name"], []) if x.get("inner")]
            if not gs:
                unsup("global without initializer " + g["name"])
            g = gs[0]
            init = g["inner"]
        fr = Frame(None, None, g["$tu"])
        fr.func = self.fr.func
        self.frames.append(fr)
        try:
            return self.rv(self.ev(init[0]))
        finally:
            self.frames.pop()

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CStyleCastExpr = x_CXXConstCastExpr = x_CXXReinterpretCastExpr = x_ImplicitCastExpr

    def cast(self, n):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion", "BitCast", "BaseToDerived"):
            return self.ev(sub)
        if ck == "ArrayToPointerDecay":
            x = self.ev(sub)
            if isinstance(x, Loc):
                return RawV(x, z3.IntVal(0))
            return x
        if ck == "LValueToRValue":
            x = self.ev(sub)
            v = self.rv(x)
            if z3.is_expr(v):
                self.rangefact(v, self.T(n))
            return v
        if ck == "IntegralCast":
            v = self.rv(self.ev(sub))
            return self.convert(v, self.T(sub), self.T(n))
        if ck in ("IntegralToBoolean",):
            v = self.rv(self.ev(sub))
            return v if v.sort() == BOOL else v != 0
        if ck == "PointerToBoolean":
            return self.nonnull(self.rv(self.ev(sub)))
        if ck == "NullToPointer":
            return RawV(None)
        if ck == "ToVoid":
            self.ev(sub)
            return None
        unsup("cast " + str(ck))

    def nonnull(self, v):
        if isinstance(v, RawV):
            return z3.BoolVal(v.loc is not None)
        if isinstance(v, BoolPtr):
            return v.nonnull
        if isinstance(v, OptV):
            return v.has
        if isinstance(v, (CStr, StatusStr, LamV)):
            return z3.BoolVal(True)
        if z3.is_expr(v) and v.sort() == INT:
            return v != 0
        if isinstance(v, OpaqueV):
            return self.fresh("nonnull", BOOL)
        unsup("nonnull of %r" % (v,))

    def convert(self, v, ft, tt):
        if not z3.is_expr(v):
            return v
        if v.sort() == BOOL:
            if tt[0] == "bool":
                return v
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if tt[0] == "bool":
            return v != 0
        if tt[0] != "int":
            return v
        lo, hi = irange(tt)
        v = simp(v)
        if z3.is_int_value(v):
            x = v.as_long()
            return z3.IntVal((x - lo) % (hi - lo + 1) + lo)
        if ft[0] == "int":
            l2, h2 = irange(ft)
            if l2 >= lo and h2 <= hi:
                return v
        elif ft[0] in ("enum",):
            return v
        self.rangefact(v, ft)
        if self.proved_qf(z3.And(v >= lo, v <= hi)):
            return v
        w = hi - lo + 1
        if ft[0] == "int" and ft[1] == tt[1]:
            return z3.If(v > hi, v - w, z3.If(v < lo, v + w, v))
        return (v - lo) % w + lo

    def arith(self, op, a, b, t):
        if t[0] != "int":
            unsup("arithmetic on %r" % (t,))
        lo, hi = irange(t)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op in ("/", "%"):
            self.safety("division by zero", b != 0)
            if not t[2]:
                return simp(a / b if op == "/" else a % b)
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - b * q
        elif op in ("<<", ">>", "&", "|", "^"):
            a2, b2 = simp(a), simp(b)
            if z3.is_int_value(a2) and z3.is_int_value(b2):
                x, y = a2.as_long(), b2.as_long()
                return z3.IntVal({"<<": x << y, ">>": x >> y, "&": x & y, "|": x | y, "^": x ^ y}[op])
            if op == ">>" and z3.is_int_value(b2) and not t[2]:
                return a / (2 ** b2.as_long())
            unsup("bit operation " + op)
        else:
            unsup("op " + op)
        r = simp(r)
        if z3.is_int_value(r):
            x = r.as_long()
            if lo <= x <= hi:
                return r
        if t[2]:
            self.safety("signed overflow", z3.And(r >= lo, r <= hi))
            return r
        for x in (a, b):
            self.rangefact(x, t)
        rng = r <= hi if op == "+" else (r >= 0 if op == "-" else z3.And(r >= lo, r <= hi))
        if self.proved_qf(rng):
            return r
        w = hi + 1
        if op == "+":
            return z3.If(r <= hi, r, r - w)
        if op == "-":
            return z3.If(r >= 0, r, r + w)
        return r % w

    def is_pure(self, n, depth=0):
        """syntactic purity: no assignment, no non-const call"""
        k = n.get("kind")
        if k in ("CompoundAssignOperator", "CXXNewExpr", "CXXDeleteExpr", "LambdaExpr"):
            return False
        if k == "BinaryOperator" and n["opcode"] == "=":
            return False
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            return False
        if k == "CXXMemberCallExpr":
            m = strip_expr(n["inner"][0])
            f = self.callee_func(m.get("referencedMemberDecl"))
            if f is not None and not f.const and not f.static:
                return False
            if f is None and m.get("name", "").startswith(("mutable_", "set_", "add_", "push", "emplace", "erase", "insert", "clear", "reset", "assign", "resize", "pop", "swap", "Clear", "CopyFrom")):
                return False
        if k == "CXXOperatorCallExpr":
            c = strip_expr(n["inner"][0])
            nm = c.get("referencedDecl", {}).get("name", "")
            if nm in ("operator=", "operator++", "operator--", "operator+=", "operator-=", "operator<<", "operator()"):
                return False
            if nm == "operator[]":
                t = self.T(n["inner"][1])
                if t[0] == "map":
                    return False
        if k == "CallExpr":
            c = strip_expr(n["inner"][0])
            nm = c.get("referencedDecl", {}).get("name", "")
            f = self.callee_func(c.get("referencedDecl", {}).get("id"))
            if f is None and nm not in ("get", "min", "max", "strstr", "to_string", "MessageType_Name", "EntryType_Name", "move"):
                return False
        return all(self.is_pure(c, depth + 1) for c in n.get("inner", []) if isinstance(c, dict))

    def simple(self, n):
        """evaluation needs no fork and no obligation beyond field reads"""
        k = n.get("kind")
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "ConditionalOperator", "ArraySubscriptExpr", "LambdaExpr", "CXXConstructExpr"):
            if k == "CXXMemberCallExpr":
                m = strip_expr(n["inner"][0])
                if m.get("name") in ("empty", "size", "from", "to", "term", "index", "type", "commit", "reject", "logterm", "context", "vote", "node_id") and not n["inner"][1:] and self.simple(m["inner"][0]):
                    return True
            return False
        return all(self.simple(c) for c in n.get("inner", []) if isinstance(c, dict))

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op in ("&&", "||"):
            return self.merged(lambda: self.logic(op, a, b))
        if op == "=":
            v = self.take(b)
            lhs = self.ev(a)
            if not isinstance(lhs, Loc):
                unsup("assignment to non-location")
            self.store(lhs, v)
            return lhs
        if op == ",":
            self.ev(a)
            return self.ev(b)
        x, y = self.rv(self.ev(a)), self.rv(self.ev(b))
        return self.binop(op, x, y, self.T(a), self.T(b), self.T(n))

    def logic(self, op, a, b):
        x = self.rv(self.ev(a))
        x = x if z3.is_expr(x) else self.nonnull(x)
        if op == "&&":
            if not self.decide(x):
                return z3.BoolVal(False)
        else:
            if self.decide(x):
                return z3.BoolVal(True)
        y = self.rv(self.ev(b))
        return y if z3.is_expr(y) else self.nonnull(y)

    def binop(self, op, x, y, ta, tb, tn):
        if op in ("==", "!="):
            r = self.equal(x, y)
            return r if op == "==" else Not(r)
        if isinstance(x, RawV) or isinstance(y, RawV):
            if op in ("+", "-") and isinstance(x, RawV) and z3.is_expr(y):
                return RawV(x.loc, simp((x.off if x.off is not None else z3.IntVal(0)) + (y if op == "+" else -y)))
            if op == "-" and isinstance(x, RawV) and isinstance(y, RawV) and x.loc is not None and y.loc is not None and x.loc.root == y.loc.root:
                return x.off - y.off
            unsup("pointer operation " + op)
        if op in ("<", ">", "<=", ">="):
            if x.sort() == BOOL:
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == BOOL:
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if x.sort() == BOOL:
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if y.sort() == BOOL:
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        return self.arith(op, x, y, tn)

    def equal(self, x, y):
        if isinstance(x, BoolPtr) or isinstance(y, BoolPtr):
            p, o = (x, y) if isinstance(x, BoolPtr) else (y, x)
            if isinstance(o, RawV) and o.loc is None:
                return Not(p.nonnull)
        if isinstance(x, ItV) and isinstance(y, ItV):
            if x.kind == "key" or y.kind == "key":
                ex, ey = x.pos, y.pos
                both = Or(And(ex, ey), And(Not(ex), Not(ey), (x.key == y.key) if x.key is not None and y.key is not None else z3.BoolVal(False)))
                return both
            return x.pos == y.pos
        if isinstance(x, RawV) and isinstance(y, RawV):
            if x.loc is None or y.loc is None:
                return z3.BoolVal((x.loc is None) == (y.loc is None))
            unsup("raw pointer comparison")
        if isinstance(y, RawV) and y.loc is None and z3.is_expr(x):
            return x == 0
        if isinstance(x, RawV) and x.loc is None and z3.is_expr(y):
            return y == 0
        if isinstance(y, RawV) and y.loc is None:
            return Not(self.nonnull(x))
        if isinstance(x, OpaqueV) or isinstance(y, OpaqueV):
            unsup("comparison of opaque values")
        if isinstance(x, CStr):
            x = strconst(x.s)
        if isinstance(y, CStr):
            y = strconst(y.s)
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() != y.sort():
                if x.sort() == BOOL:
                    x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
                if y.sort() == BOOL:
                    y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            return x == y
        return self.deep_equal(x, y)

    def deep_equal(self, x, y):
        if z3.is_expr(x):
            return self.equal(x, y)
        if isinstance(x, StructV) and isinstance(y, StructV):
            return And(*[self.deep_equal(x.f[f], y.f[f]) for f, _ in self.ty.fields(x.q)])
        if isinstance(x, SeqV):
            i = z3.Int(self.name_of("i"))
            return And(x.len == y.len, z3.ForAll([i], Implies(And(i >= 0, i < x.len), self.deep_equal(x.get(i), y.get(i)))))
        if isinstance(x, SetV):
            return x.mem == y.mem
        if isinstance(x, MapV):
            k = z3.Const(self.name_of("k"), x.mem.domain())
            return And(x.mem == y.mem, z3.ForAll([k], Implies(z3.Select(x.mem, k), self.deep_equal(x.lift.get(k), y.lift.get(k)))))
        if isinstance(x, OptV):
            return And(x.has == y.has, Implies(x.has, self.deep_equal(x.val, y.val)))
        unsup("deep equality of %r" % (x,))

    def x_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.rv(self.ev(b))
        loc = self.ev(a)
        x = self.load(loc)
        ta = self.T(a)
        ct = self.ty.parse((n.get("computeResultType") or {}).get("desugaredQualType") or (n.get("computeResultType") or {}).get("qualType") or nstr(a))
        self.rangefact(x, ta)
        if ta[0] == "bool":
            if op == "|":
                r = z3.Or(x, y if y.sort() == BOOL else y != 0)
            elif op == "&":
                r = z3.And(x, y if y.sort() == BOOL else y != 0)
            else:
                unsup("bool compound " + op)
            self.store(loc, r)
            return loc
        lt = ct if ct[0] == "int" else ta
        r = self.arith(op, self.convert(x, ta, lt), y, lt)
        self.store(loc, self.convert(r, lt, ta))
        return loc

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        a = n["inner"][0]
        if op == "__extension__":
            return self.ev(a)
        if op == "!":
            v = self.rv(self.ev(a))
            return Not(v if z3.is_expr(v) else self.nonnull(v))
        if op == "&":
            x = self.ev(a)
            if isinstance(x, Loc):
                if x.path and x.path[-1][0] == "i":
                    return RawV(Loc(x.root, x.path[:-1]), x.path[-1][1])
                return RawV(x)
            if isinstance(x, FuncRef):
                return x
            unsup("address of rvalue")
        if op == "*":
            return self.deref(self.rv(self.ev(a)))
        if op in ("++", "--"):
            loc = self.ev(a)
            t = self.T(a)
            old = self.load(loc)
            if isinstance(old, RawV):
                new = RawV(old.loc, simp(old.off + (1 if op == "++" else -1)))
            elif isinstance(old, ItV):
                new = self.it_add(old, z3.IntVal(1 if op == "++" else -1))
            else:
                self.rangefact(old, t)
                new = self.arith("+" if op == "++" else "-", old, z3.IntVal(1), t)
            self.store(loc, new)
            return old if n.get("isPostfix") else loc
        if op == "-":
            v = self.rv(self.ev(a))
            return self.arith("-", z3.IntVal(0), v, self.T(n))
        if op == "+":
            return self.rv(self.ev(a))
        unsup("unary " + op)

    def deref(self, p):
        if isinstance(p, Loc):
            p = self.load(p)
        if isinstance(p, RawV):
            if p.loc is None:
                self.safety("null dereference", z3.BoolVal(False))
            if p.off is None:
                return p.loc
            return self.elem(p.loc, p.off)
        if isinstance(p, ItV):
            return self.it_deref(p)
        unsup("deref of %r" % (p,))

    def elem(self, loc, i):
        v = self.load(loc)
        if isinstance(v, SeqV):
            self.lenfact(v)
            self.safety("index in range", z3.And(i >= 0, i < v.len))
            return loc.idx(simp(i))
        unsup("element of %r" % (v,))

    def x_ArraySubscriptExpr(self, n):
        p = self.rv(self.ev(n["inner"][0]))
        i = self.rv(self.ev(n["inner"][1]))
        if isinstance(p, RawV) and p.loc is not None:
            return self.elem(p.loc, simp((p.off if p.off is not None else z3.IntVal(0)) + i))
        unsup("subscript")

    def x_ConditionalOperator(self, n):
        c, a, b = n["inner"]

        def go():
            v = self.rv(self.ev(c))
            v = v if z3.is_expr(v) else self.nonnull(v)
            if self.decide(v):
                r = self.ev(a)
            else:
                r = self.ev(b)
            if nstr(n) == "void":
                return None
            return self.rv(r) if n.get("valueCategory") != "lvalue" or z3.is_expr(self.rv(r)) else r
        return self.merged(go)

    def x_MemberExpr(self, n):
        base = n["inner"][0]
        nm = n.get("name")
        x = self.ev(base)
        if n.get("isArrow"):
            loc = self.deref(self.rv(x) if not isinstance(x, Loc) else self.load(x))
        else:
            loc = x
        if isinstance(loc, PairRef):
            return loc.first if nm == "first" else loc.second
        if nm in ("first", "second"):
            nm = "f0" if nm == "first" else "f1"
        if isinstance(loc, Loc):
            return loc.f(nm)
        if isinstance(loc, StructV):
            return loc.f[nm]
        if isinstance(loc, TupleObj):
            return loc.vs[int(nm[1:])]
        unsup("member %s of %r" % (nm, loc))

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            unsup("trait")
        s = (n.get("argType") or {}).get("qualType")
        if s is None:
            s = nstr(n["inner"][0])
        return z3.IntVal(self.sizeof(s))

    def sizeof(self, s):
        t = self.ty.parse(s)
        if t[0] == "int":
            return t[1] // 8
        if t[0] == "seq" and t[2] is not None:
            m = re.match(r"^(.*)\[(\d+)\]$", s.strip())
            return self.sizeof(m.group(1)) * t[2]
        if t == ("struct", "craft::MajorityConfig"):
            return 48
        if t[0] == "bool":
            return 1
        unsup("sizeof " + s)

    def x_CXXDefaultArgExpr(self, n):
        unsup("default argument evaluated without context")

    def x_CXXDefaultInitExpr(self, n):
        unsup("default member init without context")

    def x_ImplicitValueInitExpr(self, n):
        return default(self.ty, self.T(n))

    def x_CXXScalarValueInitExpr(self, n):
        return default(self.ty, self.T(n))

    def x_OpaqueValueExpr(self, n):
        return self.ev(n["inner"][0])

    def x_ArrayInitLoopExpr(self, n):
        return self.rv(self.ev(n["inner"][0]))

    def x_InitListExpr(self, n):
        t = self.T(n)
        items = n.get("inner", [])
        if t[0] == "seq":
            vs = [self.take(c) for c in items if c["kind"] != "ImplicitValueInitExpr"]
            if n.get("array_filler"):
                vs = [self.take(c) for c in n["array_filler"] if c["kind"] != "ImplicitValueInitExpr"]
            if t[2] is None:
                return InitList(vs)
            s = default(self.ty, t)
            for i, v in enumerate(vs):
                s = SeqV(s.t, s.len, s.lift.store(z3.IntVal(i), self.reify(self.coerce(v, t[1]), t[1])))
            return s
        if t[0] == "struct":
            fs = self.ty.fields(t[1])
            rec = self.eng.prog.records.get(t[1])
            d = {}
            for (f, ft), c in zip(fs, items):
                if c["kind"] == "CXXDefaultInitExpr":
                    init = [x[2] for x in rec.fields if x[0] == f][0]
                    d[f] = self.coerce(self.take(init), ft)
                else:
                    d[f] = self.coerce(self.take(c), ft)
            for f, ft in fs[len(items):]:
                d[f] = default(self.ty, ft)
            return StructV(t[1], d)
        if t[0] == "tuple":
            return StructV(t[1], {"f%d" % i: self.take(c) for i, c in enumerate(items)})
        if len(items) == 1:
            return self.rv(self.ev(items[0]))
        if not items:
            return default(self.ty, t)
        unsup("init list of %r" % (t,))

    def x_LambdaExpr(self, n):
        rec = n["inner"][0]
        fields = [c for c in rec["inner"] if c["kind"] == "FieldDecl"]
        rest = n["inner"][1:]
        call = [c for c in rec["inner"] if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()"][0]
        env = dict(self.fr.locals)
        for fd, init in zip(fields, rest):
            ft = fd.get("type", {}).get("qualType", "")
            i = init
            while i["kind"] in PASS or i["kind"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXConstructExpr"):
                if not i.get("inner"):
                    break
                i = i["inner"][0]
            if i["kind"] == "CXXThisExpr":
                continue
            if i["kind"] == "DeclRefExpr" and not ft.rstrip().endswith("&"):
                did = i["referencedDecl"]["id"]
                v = self.take(init)
                if did in env:
                    env[did] = v if isinstance(v, (LamV, FuncRef)) else self.cell(v, self.ty.parse(ft))
            elif i["kind"] != "DeclRefExpr":
                # init capture: its VarDecl is referenced by name inside the body
                v = self.take(init)
                env["$cap:" + (fd.get("name") or "")] = v
        return LamV(call, env, self.fr.this, self.fr.tu, self.fr.func)

    def x_CXXNewExpr(self, n):
        t = self.T(n)   # raw pointer type
        if n.get("isArray"):
            cnt = self.rv(self.ev(n["inner"][0]))
            s = default(self.ty, ("seq", t[1], None))
            loc = self.cell(SeqV(s.t, cnt, s.lift), ("seq", t[1], None))
            return RawV(loc, z3.IntVal(0))
        v = self.rv(self.ev(n["inner"][0])) if n.get("inner") else default(self.ty, t[1])
        return RawV(self.cell(v, t[1]))

    def x_CXXDeleteExpr(self, n):
        return None

    def x_CXXTemporaryObjectExpr(self, n):
        return self.x_CXXConstructExpr(n)

    # ------------------------------------------------------------ construction
    def x_CXXConstructExpr(self, n):
        t = self.T(n)
        args = [a for a in n.get("inner", [])]
        while args and args[-1]["kind"] == "CXXDefaultArgExpr" and t[0] != "struct":
            args.pop()
        ct = n.get("ctorType", {}).get("qualType", "")
        k = t[0]
        # copy / move of the same class
        if len(args) == 1:
            at = self.T(args[0])
            if at == t or (k == "struct" and at[0] == "struct" and at[1] == t[1]):
                x = self.ev(args[0])
                v = self.rv(x)
                if "&&" in ct and isinstance(x, Loc):
                    self.moved_from(x)
                return v
        if k == "lambda":
            return self.rv(self.ev(args[0]))
        if k == "fn":
            if not args:
                return z3.IntVal(0)
            return self.rv(self.ev(args[0]))
        if k == "struct":
            return self.construct(t[1], n, args)
        return self.construct_std(t, n, args, ct)

    def find_ctor(self, q, n, args):
        cls = q.split("::")[-1]
        ct = n.get("ctorType", {}).get("qualType", "") if n is not None else ""
        cands = [f for f in self.eng.prog.byname.get(q + "::" + cls, []) if f.node is not None]
        ex = [f for f in cands if f.type == ct and not implicit_ctor(f)]
        if ex:
            return ex[0]
        ex = [f for f in cands if len(f.params) == len(args) and not implicit_ctor(f)]
        if len(ex) == 1:
            return ex[0]
        if len(ex) > 1:
            unsup("ambiguous constructor of " + q)
        return None

    def construct(self, q, n, args):
        if q.startswith("raftpb::") or q not in self.eng.prog.records:
            if not args:
                return default(self.ty, ("struct", q))
            unsup("construct " + q)
        f = self.find_ctor(q, n, args)
        if f is None:
            if args:
                unsup("no constructor for %s with %d args" % (q, len(args)))
            return self.default_struct(q)
        con = self.eng.contract_of(f, self)
        av = self.eval_args(f, args)
        return self.run_ctor(f, q, av)

    def default_struct(self, q):
        rec = self.eng.prog.records[q]
        dflt = {name: init for name, _, init in rec.fields}
        d = {}
        for f, ft in self.ty.fields(q):
            init = dflt.get(f)
            if init is not None:
                self.frames.append(Frame(self.fr.func if self.frames else None, None, rec.tu))
                try:
                    d[f] = self.coerce(self.rv(self.ev(init)), ft)
                finally:
                    self.frames.pop()
            elif ft[0] == "struct" and ft[1] in self.eng.prog.records:
                c = self.find_ctor(ft[1], None, [])
                d[f] = self.run_ctor(c, ft[1], []) if c is not None else self.default_struct(ft[1])
            else:
                d[f] = default(self.ty, ft)
        return StructV(q, d)

    def run_ctor(self, f, q, av, derived=None):
        t = ("struct", q)
        loc = self.cell(default(self.ty, t) if derived is None else derived, t)
        rec = self.eng.prog.records[q]
        fr = Frame(f, loc, f.tu)
        self.bind_params(fr, f, av)
        self.frames.append(fr)
        if len(self.frames) > 60:
            unsup("recursion")
        try:
            dflt = {name: init for name, _, init in rec.fields}
            done = set()
            for c in f.node.get("inner", []):
                if c.get("kind") != "CXXCtorInitializer":
                    continue
                if "anyInit" in c:
                    nm = c["anyInit"].get("name")
                    ft = self.ty.ftype(q, nm)
                    e = c["inner"][0] if c.get("inner") else None
                    if e is None or e["kind"] == "CXXDefaultInitExpr":
                        e = dflt.get(nm)
                    done.add(nm)
                    if e is not None:
                        v = self.take(e)
                        if v is None:
                            v = default(self.ty, ft)
                        self.store(loc.f(nm), self.init_value(v, ft), log=False)
            for nm, _, init in rec.fields:
                if nm not in done and init is not None:
                    self.store(loc.f(nm), self.init_value(self.rv(self.ev(init)), self.ty.ftype(q, nm)), log=False)
            self.stmt(f.body)
        finally:
            self.frames.pop()
        return self.load(loc)

    def init_value(self, v, ft):
        if isinstance(v, InitList):
            return self.from_initlist(v, ft)
        if isinstance(v, CStr) and ft == TSTR:
            return strconst(v.s)
        return v

    # ------------------------------------------------------------ calls
    def callee_func(self, did):
        if did is None:
            return None
        mg = self.eng.prog.id2func.get((self.fr.tu, did))
        return self.eng.prog.funcs.get(mg) if mg else None

    def eval_args(self, f, args):
        out = []
        for i, a in enumerate(args):
            if a["kind"] == "CXXDefaultArgExpr":
                out.append(self.default_arg(f, i))
                continue
            out.append(self.ev(a))
        return out

    def default_arg(self, f, i):
        for tu, _, d in f.decls:
            ps = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            if i < len(ps) and ps[i].get("inner"):
                init = [c for c in ps[i]["inner"] if c["kind"].endswith(("Expr", "Literal", "Operator"))]
                if init:
                    self.frames.append(Frame(f, None, tu))
                    try:
                        return self.rv(self.ev(init[0]))
                    finally:
                        self.frames.pop()
        unsup("default argument of " + f.qname)

    def bind_params(self, fr, f, av):
        for p, a in zip(f.params, av):
            fr.locals[p["id"]] = self.bind_value(p, a)
            if p.get("name"):
                fr.names[p["name"]] = fr.locals[p["id"]]
        # parameter ids differ between declaration and definition; bodies use the definition's ids

    def bind_value(self, p, a):
        qs = p.get("type", {}).get("qualType", "")
        t = self.T(p)
        if isinstance(a, (LamV, FuncRef, PairRef, CStr, StatusStr, InitList, BoolPtr)):
            if isinstance(a, CStr) and t == TSTR:
                return self.cell(strconst(a.s), TSTR)
            if isinstance(a, InitList):
                return self.cell(self.from_initlist(a, t), t)
            if t[0] == "fn" or not isinstance(a, LamV) or True:
                return a
        if isinstance(a, (ItV, RawV, OpaqueV)):
            return self.cell(a, t)
        if Types.isref(qs) or nstr(p).rstrip().endswith("&"):
            if isinstance(a, Loc):
                return a
            return self.cell(self.coerce(a, t), t)
        return self.cell(self.coerce(self.rv(a), t), t)

    def from_initlist(self, a, t):
        if t[0] == "seq":
            s = default(self.ty, ("seq", t[1], None))
            lift = s.lift
            for i, v in enumerate(a.vs):
                lift = lift.store(z3.IntVal(i), self.reify(self.coerce(self.init_value(v, t[1]), t[1]), t[1]))
            return SeqV(t[1], z3.IntVal(len(a.vs)), lift)
        if t[0] == "set":
            s = default(self.ty, t)
            mem = s.mem
            for v in a.vs:
                mem = z3.Store(mem, v, z3.BoolVal(True))
            return SetV(t[1], mem)
        unsup("initializer list for %r" % (t,))

    def call(self, f, this, args, node=None):
        """args: already evaluated (Loc or value)"""
        con = self.eng.contract_of(f, self)
        if con is not None:
            return con.use(self, f, this, args)
        if f.qname in self.eng.builtins:
            return self.eng.builtins[f.qname](self, f, this, args)
        if f.node is None or f.body is None:
            unsup("call to %s: no body and no contract" % f.qname)
        if len(self.frames) > 40 or sum(1 for x in self.frames if x.func is f) > 1:
            unsup("recursion through " + f.qname)
        rt = f.type.split("(")[0].strip()
        if f.const and not Types.isref(rt) and self.ty.parse(rt)[0] in ("bool", "int", "enum") and not self.eng.nomerge:
            return self.merged(lambda: self.inline(f, this, args))
        return self.inline(f, this, args)

    def inline(self, f, this, args):
        fr = Frame(f, this, f.tu)
        self.bind_params(fr, f, args)
        self.frames.append(fr)
        try:
            r = self.stmt(f.body)
        finally:
            self.frames.pop()
        if r is not None and r[0] == "ret":
            return r[1]
        return None

    def call_lambda(self, lam, args):
        if isinstance(lam, Loc):
            lam = self.load(lam)
        if z3.is_expr(lam):
            return self.call_fncode(lam, args)
        if isinstance(lam, BoundFn):
            f = self.eng.prog.find(lam.name)
            return self.call(f, lam.this, args)
        if not isinstance(lam, LamV):
            unsup("call of %r" % (lam,))
        fr = Frame(lam.func, lam.this, lam.tu, dict(lam.env))
        ps = [c for c in lam.node.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in lam.node.get("inner", []) if c.get("kind") == "CompoundStmt"][0]
        for p, a in zip(ps, args):
            fr.locals[p["id"]] = self.bind_value(p, a)
            if p.get("name"):
                fr.names[p["name"]] = fr.locals[p["id"]]
        self.frames.append(fr)
        try:
            r = self.stmt(body)
        finally:
            self.frames.pop()
        if r is not None and r[0] == "ret":
            return r[1]
        return None

    def fncode(self, v):
        if isinstance(v, BoundFn):
            return z3.IntVal(self.eng.fn_code(v.name))
        if isinstance(v, FuncRef):
            return z3.IntVal(self.eng.fn_code(v.decl.get("name")))
        return v

    def call_fncode(self, code, args):
        for i, (nm, c) in enumerate(sorted(self.eng.fncodes.items(), key=lambda x: x[1])):
            if self.decide(code == c):
                fs = [f for q, l in self.eng.prog.byname.items() if q == nm for f in l if f.node is not None]
                if not fs:
                    unsup("bound function " + nm)
                return self.call(fs[0], self.fr.this_of_bound if hasattr(self.fr, "this_of_bound") else self.bound_this(), args)
        self.safety("call of a valid std::function", z3.BoolVal(False))
        raise PathEnd()

    def bound_this(self):
        for f in reversed(self.frames):
            if f.this is not None:
                return f.this
        unsup("no this for bound function")

    def x_CallExpr(self, n):
        callee = strip_expr(n["inner"][0])
        args = n["inner"][1:]
        if callee["kind"] != "DeclRefExpr":
            unsup("indirect call")
        d = callee["referencedDecl"]
        f = self.callee_func(d["id"])
        if f is not None:
            return self.call(f, None, self.eval_args(f, args), n)
        m = getattr(self, "f_" + d["name"], None)
        if m is None:
            unsup("external function %s" % d["name"])
        return m(n, args)

    def x_CXXMemberCallExpr(self, n):
        m = strip_expr(n["inner"][0])
        args = n["inner"][1:]
        if m["kind"] != "MemberExpr":
            unsup("member call through " + m["kind"])
        f = self.callee_func(m.get("referencedMemberDecl"))
        base = m["inner"][0]
        if f is not None and f.scope == "craft::Logger":
            return self.log_call(n, args)
        if f is not None and f.scope != "craft::Status":
            this = self.object_loc(m, base)
            av = self.eval_args(f, args)
            return self.call(f, this, av, n)
        return self.method(n, m, base, args)

    def object_loc(self, m, base):
        x = self.ev(base)
        if m.get("isArrow"):
            return self.deref(x)
        if isinstance(x, Loc):
            return x
        return self.as_loc(x, self.T(base))

    def log_call(self, n, args):
        lv = simp(self.rv(self.ev(args[0])))
        for a in args[1:]:
            if not self.is_pure(a):
                self.ev(a)
        fatal = self.eng.prog.enumconst.get(LOGLEVEL_FATAL)
        if z3.is_int_value(lv):
            if lv.as_long() == fatal:
                self.fatal("fatal log")
        else:
            if self.decide(lv == fatal):
                self.fatal("fatal log")
        return None

    def fatal(self, what):
        c = self.cur_contract
        if c is not None and c.nofatal is not None:
            self.oblige("no abort: " + what, Not(c.nofatal), ("nofatal",), "safety")
        raise PathEnd()

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n["kind"]
        if k == "CompoundStmt":
            for c in n.get("inner", []):
                r = self.stmt(c)
                if r is not None:
                    return r
            return None
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        self.ev(n)
        return None

    def s_NullStmt(self, n):
        return None

    def s_ReturnStmt(self, n):
        if not n.get("inner"):
            return ("ret", None)
        e = n["inner"][0]
        f = self.fr
        x = self.ev(e)
        rtref = e.get("valueCategory") == "lvalue"
        if isinstance(x, Loc) and not rtref:
            x = self.load(x)
        return ("ret", x)

    def s_IfStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            r = self.stmt(inner.pop(0))
        if n.get("hasVar"):
            self.stmt(inner.pop(0))
        cond, then = inner[0], inner[1]
        els = inner[2] if n.get("hasElse") else None
        if self.cond(cond):
            return self.stmt(then)
        if els is not None:
            return self.stmt(els)
        return None

    def cond(self, n):
        v = self.rv(self.ev(n))
        v = v if z3.is_expr(v) else self.nonnull(v)
        if v.sort() != BOOL:
            v = v != 0
        return self.decide(v)

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            k = d["kind"]
            if k == "VarDecl":
                self.vardecl(d)
            elif k == "DecompositionDecl":
                self.decomp(d)
            elif k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "EmptyDecl", "CXXRecordDecl"):
                pass
            else:
                unsup("declaration " + k)
        return None

    def vardecl(self, d):
        init = [c for c in d.get("inner", []) if "Attr" not in c["kind"] and "Comment" not in c["kind"]]
        t = self.T(d)
        qs = d.get("type", {}).get("qualType", "")
        if d.get("storageClass") == "static" and "const" not in qs:
            if not (self.fr.func and never_written(self.fr.func.node, d["id"])):
                unsup("static local")
        isref = Types.isref(qs) or nstr(d).rstrip().endswith("&")
        if not init:
            if t[0] == "struct" and t[1] in self.eng.prog.records:
                v = self.default_struct(t[1])
            elif t[0] in ("int", "bool", "enum"):
                v = self.freshval(t, "uninit")
                self.rangefact(v, t)
            else:
                v = default(self.ty, t)
            x = self.cell(v, t)
        else:
            e = init[0]
            x = self.ev(e)
            if isref:
                if not isinstance(x, (Loc, PairRef, LamV, ItV, RawV, InitList)):
                    x = self.cell(self.coerce(x, t), t)
            else:
                v = self.rv(x)
                if isinstance(v, (LamV, PairRef, StatusStr, CStr, BoolPtr)) and t != TSTR:
                    x = v
                elif isinstance(v, (ItV, RawV, OpaqueV)):
                    x = self.cell(v, t)
                else:
                    x = self.cell(self.coerce(self.init_value(v, t), t), t)
        self.fr.locals[d["id"]] = x
        if d.get("name"):
            self.fr.names[d["name"]] = x

    def decomp(self, d, value=None):
        inner = d.get("inner", [])
        binds = [c for c in inner if c["kind"] == "BindingDecl"]
        qs = d.get("type", {}).get("qualType", "")
        isref = Types.isref(qs) or nstr(d).rstrip().endswith("&")
        if value is None:
            init = [c for c in inner if c["kind"] != "BindingDecl"]
            x = self.ev(init[0])
        else:
            x = value
        t = self.T(d)
        if isinstance(x, PairRef):
            parts = [x.first, x.second]
            if not isref:
                parts = [self.rv(p) for p in parts]
        elif isinstance(x, TupleObj):
            parts = list(x.vs)
        else:
            if isinstance(x, Loc):
                tt = self.typeof(x)
                if not isref:
                    x = self.cell(self.load(x), tt)
            else:
                tt = t
                x = self.cell(self.coerce(x, t), t)
            fs = self.ty.fields(tt[1])
            parts = [x.f(f) for f, _ in fs]
        for b, p in zip(binds, parts):
            if not isinstance(p, Loc):
                bt = self.T(b)
                p = self.cell(p, bt) if not isinstance(p, LamV) else p
            self.fr.locals[b["id"]] = p
            if b.get("name"):
                self.fr.names[b["name"]] = p
            for c in b.get("inner", []):
                if c["kind"] == "VarDecl":
                    self.fr.locals[c["id"]] = p
                for cc in ([c] if c["kind"] == "DeclRefExpr" else []):
                    rid = cc["referencedDecl"]["id"]
                    if rid != d["id"]:
                        self.fr.locals[rid] = p

    def s_SwitchStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.stmt(inner.pop(0))
        if n.get("hasVar"):
            self.stmt(inner.pop(0))
        v = self.rv(self.ev(inner[0]))
        body = inner[1]
        items = []   # (labels or None, stmt)
        for c in body.get("inner", []):
            labels = []
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    labels.append(simp(self.rv(self.ev(c["inner"][0]))))
                    c = c["inner"][-1]
                else:
                    labels.append("default")
                    c = c["inner"][-1]
            items.append((labels, c))
        start = None
        for i, (labs, s) in enumerate(items):
            real = [l for l in labs if not isinstance(l, str)]
            if real and self.decide(Or(*[v == l for l in real])):
                start = i
                break
        if start is None:
            for i, (labs, s) in enumerate(items):
                if any(isinstance(l, str) for l in labs):
                    start = i
        if start is None:
            return None
        for labs, s in items[start:]:
            r = self.stmt(s)
            if r is not None:
                if r[0] == "brk":
                    return None
                return r
        return None

    def s_BreakStmt(self, n):
        return ("brk",)

    def s_ContinueStmt(self, n):
        return ("cont",)

    def s_CXXTryStmt(self, n):
        return self.stmt(n["inner"][0])

    def s_ForStmt(self, n):
        init, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        if init and init.get("kind"):
            self.stmt(init)
        return self.loop(n, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body)

    def s_WhileStmt(self, n):
        inner = n["inner"]
        return self.loop(n, inner[0], None, inner[-1])

    def s_DoStmt(self, n):
        # body once, then a while loop
        body, cond = n["inner"]
        r = self.stmt(body)
        if r is not None:
            if r[0] == "brk":
                return None
            if r[0] == "ret":
                return r
        return self.loop(n, cond, None, body)

    def s_CXXForRangeStmt(self, n):
        inner = n["inner"]
        rng = inner[1]["inner"][0]
        var = inner[6]["inner"][0]
        body = inner[7]
        x = self.ev(rng["inner"][0])
        return self.range_loop(n, x, self.T(rng), var, body)


def never_written(n, did, ok=False):
    """every use of the variable reads it (or takes it as a const reference)"""
    if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("id") == did:
        return ok
    ok = n.get("kind") == "ImplicitCastExpr" and (n.get("castKind") == "LValueToRValue" or n.get("castKind") == "NoOp" and "const" in n.get("type", {}).get("qualType", ""))
    return all(never_written(c, did, ok) for c in n.get("inner", []) if isinstance(c, dict))


def implicit_ctor(f):
    return f.decls[0][2].get("isImplicit", False)
