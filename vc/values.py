"""Symbolic values: type-shaped trees whose leaves are SMT terms."""
import re
import z3

INT, BOOL = z3.IntSort(), z3.BoolSort()
STR = z3.DeclareSort("Str")
STRLEN = z3.Function("strlen", STR, INT)
U64 = 2 ** 64


class Unsupported(Exception):
    pass


def unsup(msg):
    raise Unsupported(msg)


# ---------------------------------------------------------------- types
def tint(bits, signed):
    return ("int", bits, signed)


TU64, TI64, TU32, TI32, TU8 = tint(64, 0), tint(64, 1), tint(32, 0), tint(32, 1), tint(8, 0)
TBOOL, TSTR, TSTATUS, TVOID = ("bool",), ("str",), ("status",), ("void",)
BUILTIN = {"bool": TBOOL, "int": TI32, "unsigned int": TU32, "unsigned": TU32, "long": TI64, "unsigned long": TU64,
           "long long": TI64, "unsigned long long": TU64, "char": tint(8, 1), "unsigned char": TU8, "signed char": tint(8, 1),
           "short": tint(16, 1), "unsigned short": tint(16, 0), "uint64_t": TU64, "size_t": TU64, "int64_t": TI64,
           "uint32_t": TU32, "int32_t": TI32, "std::size_t": TU64, "uint8_t": TU8, "void": TVOID, "float": ("opaque", "float"),
           "double": ("opaque", "double"), "::google::protobuf::uint64": TU64, "google::protobuf::uint64": TU64,
           "::uint64_t": TU64, "::int32_t": TI32, "std::uint64_t": TU64, "std::int64_t": TI64}
SEQN = {"vector", "deque", "list", "RepeatedPtrField", "RepeatedField", "initializer_list"}


class Types:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.fcache = {}
        self.enumnames = {}

    def strip(self, s):
        s = s.strip()
        while True:
            o = s
            s = re.sub(r"^(const|volatile|struct|class|enum|typename|constexpr)\s+", "", s)
            s = re.sub(r"\s*\b(const|volatile|noexcept)\s*$", "", s).strip()
            if s == o:
                return s

    @staticmethod
    def isref(s):
        return s.rstrip().endswith("&")

    def parse(self, s):
        r = self.cache.get(s)
        if r is None:
            r = self.cache[s] = self._parse(s)
        return r

    def _parse(self, s0):
        s = self.strip(s0)
        while s.endswith("&"):
            s = self.strip(s[:-1])
        if s.endswith("*"):
            return ("raw", self.parse(s[:-1]))
        m = re.match(r"^(.*)\[(\d*)\]$", s)
        if m:
            return ("seq", self.parse(m.group(1)), int(m.group(2)) if m.group(2) else None)
        if s in BUILTIN:
            return BUILTIN[s]
        if s.startswith("(lambda at"):
            return ("lambda",)
        s = s.lstrip(":") if s.startswith("::") else s
        m = re.match(r"^([\w:]+?)<(.*)>(::\w+)?$", s)
        if m and balanced(m.group(2)):
            name, args, suf = m.group(1), split_args(m.group(2)), m.group(3)
            base = name.split("::")[-1]
            if suf:
                if base == "tuple_element" and suf == "::type":
                    tt = self.parse(args[1])
                    return tt[1][int(re.match(r"\d+", args[0]).group(0))]
                if "iterator" in suf:
                    return ("iter",)
                return ("opaque", s)
            if base in ("tuple_element_t", "__tuple_element_t"):
                tt = self.parse(args[1])
                return tt[1][int(re.match(r"\d+", args[0]).group(0))]
            if base in ("shared_ptr", "__shared_ptr", "__shared_ptr_access"):
                return ("ptr", self.parse(args[0]))
            if base == "_NonArray":
                return self.parse(args[0])
            if base == "unique_ptr":
                a = args[0].strip()
                if a.endswith("[]"):
                    return ("uniqarr", self.parse(a[:-2]))
                return ("uniq", self.parse(a))
            if base in SEQN:
                return ("seq", self.parse(args[0]), None)
            if base in ("set", "unordered_set"):
                return ("set", self.parse(args[0]))
            if base in ("map", "unordered_map"):
                return ("map", self.parse(args[0]), self.parse(args[1]))
            if base == "optional":
                return ("opt", self.parse(args[0]))
            if base in ("tuple", "pair", "__pair_base"):
                return ("tuple", tuple(self.parse(a) for a in args))
            if base == "function":
                return ("fn",)
            if base in ("basic_string", "basic_string_view"):
                return TSTR
            if "iterator" in base or "Iterator" in base:
                return ("iter",)
            if base == "array":
                return ("seq", self.parse(args[0]), int(re.match(r"\d+", args[1]).group(0)))
            return ("opaque", s)
        if s in ("std::string", "string", "std::string_view", "basic_string"):
            return TSTR
        b = s.split("::")[-1]
        if s.startswith("raftpb::") or ("raftpb" in s and b in self.p.msgs) or b in self.p.enums or (b in self.p.msgs and "::" not in s):
            if b in self.p.enums:
                return ("enum", b, max(self.p.enums[b].values()))
            if b in self.p.msgs:
                return ("struct", "raftpb::" + b)
        if s in ("craft::Status", "Status"):
            return TSTATUS
        e = self.enum_of(s)
        if e:
            return e
        for q in (s, "craft::" + s):
            if q in self.p.records:
                return ("struct", q)
        c = [q for q in self.p.records if q.endswith("::" + s)]
        if len(c) == 1:
            return ("struct", c[0])
        for a in (s, s.split("::")[-1]):
            if a in self.p.aliases and self.p.aliases[a] != s0:
                return self.parse(self.p.aliases[a])
        if "iterator" in s:
            return ("iter",)
        return ("opaque", s)

    def enum_of(self, s):
        if not self.enumnames:
            for (tu, i), d in self.p.id2node.items():
                if d.get("kind") == "EnumConstantDecl":
                    nm = d.get("type", {}).get("desugaredQualType") or d.get("type", {}).get("qualType")
                    nm = self.strip(nm)
                    self.enumnames[nm] = max(self.enumnames.get(nm, 0), d["$value"])
        for q in (s, "craft::" + s):
            if q in self.enumnames:
                return ("enum", q, self.enumnames[q])
        c = [q for q in self.enumnames if q.endswith("::" + s)]
        if len(c) == 1:
            return ("enum", c[0], self.enumnames[c[0]])
        return None

    def fields(self, q):
        """ordered [(name, type)] of a struct"""
        r = self.fcache.get(q)
        if r is not None:
            return r
        if isinstance(q, tuple):
            r = [("f%d" % i, t) for i, t in enumerate(q)]
        elif q.startswith("raftpb::"):
            r = []
            for nm, lab, ty in self.p.msgs[q[8:]]:
                t = {"uint64": TU64, "int64": TI64, "uint32": TU32, "int32": TI32, "bool": TBOOL, "bytes": TSTR, "string": TSTR}.get(ty)
                if t is None:
                    t = ("enum", ty, max(self.p.enums[ty].values())) if ty in self.p.enums else ("struct", "raftpb::" + ty)
                if lab == "repeated":
                    t = ("seq", t, None)
                r.append((nm, t))
            if q == "raftpb::Entry":
                r.append(("$bs", TU64))
        elif q in EXTRA_STRUCTS:
            r = EXTRA_STRUCTS[q]
        else:
            rec = self.p.records[q]
            r = []
            for b in rec.bases:
                bt = self.parse(b)
                if bt[0] == "struct":
                    r += self.fields(bt[1])
            r += [(n, self.parse(t)) for n, t, _ in rec.fields]
        self.fcache[q] = r
        return r

    def ftype(self, q, f):
        for n, t in self.fields(q):
            if n == f:
                return t
        unsup("no field %s in %s" % (f, q))

    # leaves: [(suffix, sort, scalar type)]
    def leaves(self, t):
        k = ("leaves", t)
        r = self.fcache.get(k)
        if r is None:
            r = self.fcache[k] = list(self._leaves(t))
        return r

    def _leaves(self, t):
        k = t[0]
        if k in ("int", "ptr", "fn", "status", "enum"):
            yield ("", INT, t)
        elif k == "bool":
            yield ("", BOOL, t)
        elif k == "str":
            yield ("", STR, t)
        elif k in ("struct", "tuple"):
            for f, ft in self.fields(t[1]):
                for s, so, lt in self.leaves(ft):
                    yield ("." + f + s, so, lt)
        elif k == "seq":
            yield ("#", INT, ("len",))
            for s, so, lt in self.leaves(t[1]):
                yield ("[]" + s, z3.ArraySort(INT, so), lt)
        elif k == "set":
            yield ("?", z3.ArraySort(self.ksort(t[1]), BOOL), ("mem",))
        elif k == "map":
            ks = self.ksort(t[1])
            yield ("?", z3.ArraySort(ks, BOOL), ("mem",))
            for s, so, lt in self.leaves(t[2]):
                yield ("[]" + s, z3.ArraySort(ks, so), lt)
        elif k in ("opt", "uniq"):
            yield ("!", BOOL, TBOOL)
            for s, so, lt in self.leaves(t[1]):
                yield ("*" + s, so, lt)
        elif k in ("opaque", "raw", "lambda", "iter", "uniqarr", "void"):
            return
        else:
            unsup("leaves of %r" % (t,))

    def ksort(self, t):
        return STR if t == TSTR else INT


EXTRA_STRUCTS = {}


def balanced(s):
    d = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d < 0:
                return False
    return d == 0


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------- values
class FDict(dict):
    """field dictionary filled on demand"""
    def __init__(self, fn, *a):
        dict.__init__(self, *a)
        self.fn = fn

    def __missing__(self, k):
        if self.fn is None:
            raise KeyError(k)
        v = self[k] = self.fn(k)
        return v


class StructV:
    __slots__ = ("q", "f")

    def __init__(self, q, f):
        self.q, self.f = q, f

    def set(self, name, v):
        old = self.f
        d = FDict(old.__getitem__, old)
        d[name] = v
        return StructV(self.q, d)


class SeqV:
    __slots__ = ("t", "len", "lift")

    def __init__(self, t, ln, lift):
        self.t, self.len, self.lift = t, ln, lift

    def get(self, i):
        return self.lift.get(i)


class SetV:
    __slots__ = ("kt", "mem")

    def __init__(self, kt, mem):
        self.kt, self.mem = kt, mem


class MapV:
    __slots__ = ("kt", "vt", "mem", "lift")

    def __init__(self, kt, vt, mem, lift):
        self.kt, self.vt, self.mem, self.lift = kt, vt, mem, lift


class OptV:
    __slots__ = ("t", "has", "val")

    def __init__(self, t, has, val):
        self.t, self.has, self.val = t, has, val


class OpaqueV:
    def __init__(self, name):
        self.name = name


class LamV:
    def __init__(self, node, env, this, tu, func):
        self.node, self.env, self.this, self.tu, self.func = node, env, this, tu, func


class BoundFn:
    """std::bind(&C::m, this, ...) """
    def __init__(self, name):
        self.name = name


class FuncRef:
    def __init__(self, decl, node):
        self.decl, self.node = decl, node


class ItV:
    """iterator: container location + integer position (or key for set/map: enumeration position)"""
    def __init__(self, loc, pos, kind="seq", key=None, rev=False):
        self.loc, self.pos, self.kind, self.key, self.rev = loc, pos, kind, key, rev


class RawV:
    """raw pointer: to a Loc (or element off of a sequence Loc); loc None = null"""
    def __init__(self, loc, off=None):
        self.loc, self.off = loc, off


class PairRef:
    def __init__(self, first, second):
        self.first, self.second = first, second


class TupleObj:
    """python-level tuple of arbitrary values"""
    def __init__(self, vs):
        self.vs = vs


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def f(self, name):
        return Loc(self.root, self.path + (("f", name),))

    def idx(self, i):
        return Loc(self.root, self.path + (("i", i),))

    def key(self, k):
        return Loc(self.root, self.path + (("k", k),))

    def deref(self):
        return Loc(self.root, self.path + (("*",),))

    def __repr__(self):
        return "Loc(%s,%s)" % (self.root, self.path)


class LArr:
    """element family stored in SMT arrays (one per leaf)"""
    __slots__ = ("ty", "t", "arrs")

    def __init__(self, ty, t, arrs):
        self.ty, self.t, self.arrs = ty, t, arrs

    def get(self, i):
        return build(self.ty, self.t, lambda s: sel(self.arrs[s], i))

    def store(self, i, v):
        return LArr(self.ty, self.t, {s: z3.Store(self.arrs[s], i, term) for s, term in unbuild(self.ty, v, self.t)})


class LFn:
    __slots__ = ("fn", "cache")

    def __init__(self, fn):
        self.fn, self.cache = fn, None

    def get(self, i):
        return self.fn(i)


def sel(a, i):
    """Select with light read-over-write simplification"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


def build(ty, t, leaf, pre=""):
    k = t[0]
    if k in ("int", "ptr", "fn", "status", "bool", "str", "enum"):
        return leaf(pre)
    if k in ("struct", "tuple"):
        ft = dict(ty.fields(t[1]))
        return StructV(t[1], FDict(lambda f: build(ty, ft[f], leaf, pre + "." + f)))
    if k == "seq":
        arrs = {s: leaf(pre + "[]" + s) for s, so, lt in ty.leaves(t[1])}
        return SeqV(t[1], leaf(pre + "#") if t[2] is None else z3.IntVal(t[2]), LArr(ty, t[1], arrs))
    if k == "set":
        return SetV(t[1], leaf(pre + "?"))
    if k == "map":
        arrs = {s: leaf(pre + "[]" + s) for s, so, lt in ty.leaves(t[2])}
        return MapV(t[1], t[2], leaf(pre + "?"), LArr(ty, t[2], arrs))
    if k in ("opt", "uniq"):
        return OptV(t[1], leaf(pre + "!"), build(ty, t[1], leaf, pre + "*"))
    if k in ("opaque", "void", "iter", "lambda", "uniqarr"):
        return OpaqueV(t[1] if len(t) > 1 else k)
    if k == "raw":
        return OpaqueV("raw")
    unsup("build %r" % (t,))


class NeedReify(Exception):
    def __init__(self, seq):
        self.seq = seq


def unbuild(ty, v, t, pre=""):
    k = t[0]
    if k in ("int", "ptr", "fn", "status", "bool", "str", "enum"):
        if not z3.is_expr(v):
            unsup("unbuild scalar %r from %r" % (t, v))
        yield (pre, v)
    elif k in ("struct", "tuple"):
        if not isinstance(v, StructV):
            unsup("unbuild struct %r from %r" % (t, v))
        for f, ft in ty.fields(t[1]):
            yield from unbuild(ty, v.f[f], ft, pre + "." + f)
    elif k == "seq":
        yield (pre + "#", v.len)
        if not isinstance(v.lift, LArr):
            raise NeedReify(v)
        for s, so, lt in ty.leaves(t[1]):
            yield (pre + "[]" + s, v.lift.arrs[s])
    elif k == "set":
        yield (pre + "?", v.mem)
    elif k == "map":
        yield (pre + "?", v.mem)
        for s, so, lt in ty.leaves(t[2]):
            yield (pre + "[]" + s, v.lift.arrs[s])
    elif k in ("opt", "uniq"):
        if not isinstance(v, OptV):
            unsup("unbuild opt from %r" % (v,))
        yield (pre + "!", v.has)
        yield from unbuild(ty, v.val, t[1], pre + "*")
    elif k in ("opaque", "raw", "iter", "lambda", "uniqarr", "void"):
        return
    else:
        unsup("unbuild %r" % (t,))


def default(ty, t):
    k = t[0]
    if k in ("int", "ptr", "fn", "status", "enum"):
        return z3.IntVal(0)
    if k == "bool":
        return z3.BoolVal(False)
    if k == "str":
        return strconst("")
    if k in ("struct", "tuple"):
        fs = {f: default(ty, ft) for f, ft in ty.fields(t[1])}
        return StructV(t[1], fs)
    if k == "seq":
        arrs = {s: z3.K(INT, zero_of(so)) for s, so, lt in ty.leaves(t[1])}
        return SeqV(t[1], z3.IntVal(t[2] or 0), LArr(ty, t[1], arrs))
    if k == "set":
        return SetV(t[1], z3.K(ty.ksort(t[1]), z3.BoolVal(False)))
    if k == "map":
        ks = ty.ksort(t[1])
        return MapV(t[1], t[2], z3.K(ks, z3.BoolVal(False)), LArr(ty, t[2], {s: z3.K(ks, zero_of(so)) for s, so, lt in ty.leaves(t[2])}))
    if k in ("opt", "uniq"):
        return OptV(t[1], z3.BoolVal(False), default(ty, t[1]))
    if k == "raw":
        return RawV(None)
    return OpaqueV(str(t))


def zero_of(so):
    if so == INT:
        return z3.IntVal(0)
    if so == BOOL:
        return z3.BoolVal(False)
    if so == STR:
        return strconst("")
    if so.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(so.domain(), zero_of(so.range()))
    unsup("zero of %s" % so)


_strs = {}


def strconst(s):
    if s not in _strs:
        _strs[s] = z3.Const("str!%d!%s" % (len(_strs), re.sub(r"\W", "_", s)[:24]), STR)
    return _strs[s]


def str_axioms():
    cs = list(_strs.items())
    out = [STRLEN(c) == len(s) for s, c in cs]
    if len(cs) > 1:
        out.append(z3.Distinct([c for _, c in cs]))
    x = z3.Const("x!s", STR)
    if "" in _strs:
        out.append(z3.ForAll([x], z3.And(STRLEN(x) >= 0, STRLEN(x) < 2 ** 31, (STRLEN(x) == 0) == (x == _strs[""])), patterns=[STRLEN(x)]))
    return out


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, StructV):
        return StructV(a.q, FDict(lambda f: ite(c, a.f[f], b.f[f])))
    if isinstance(a, SeqV):
        if isinstance(a.lift, LArr) and isinstance(b.lift, LArr):
            return SeqV(a.t, ite(c, a.len, b.len), LArr(a.lift.ty, a.t, {s: ite(c, a.lift.arrs[s], b.lift.arrs[s]) for s in a.lift.arrs}))
        return SeqV(a.t, ite(c, a.len, b.len), LFn(lambda i: ite(c, a.get(i), b.get(i))))
    if isinstance(a, SetV):
        return SetV(a.kt, ite(c, a.mem, b.mem))
    if isinstance(a, MapV):
        return MapV(a.kt, a.vt, ite(c, a.mem, b.mem), LArr(a.lift.ty, a.vt, {s: ite(c, a.lift.arrs[s], b.lift.arrs[s]) for s in a.lift.arrs}))
    if isinstance(a, OptV):
        return OptV(a.t, ite(c, a.has, b.has), ite(c, a.val, b.val))
    if isinstance(a, OpaqueV):
        return a
    if isinstance(a, TupleObj):
        return TupleObj([ite(c, x, y) for x, y in zip(a.vs, b.vs)])
    unsup("ite of %r" % (a,))
