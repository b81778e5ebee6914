"""Mechanical extraction: Clang JSON AST of the craft:: sources -> function / record tables.

Nothing of a function body is rewritten: the interpreter in core.py walks the AST that
clang-18 produced for /repo's current working tree."""
import json, os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor

CLANG = "/usr/bin/clang++-18"
PROTOC = "/usr/bin/protoc"


class ExtractError(Exception):
    pass


def load_docs(text):
    dec = json.JSONDecoder()
    i, n, out = 0, len(text), []
    while True:
        i = text.find("{", i)
        if i < 0:
            return out
        o, i = dec.raw_decode(text, i)
        out.append(o)


def parse_proto(path):
    """messages: name -> [(accessor, kind, typename)], enums: name -> {const: value}"""
    txt = re.sub(r"//[^\n]*", "", open(path).read())
    msgs, enums = {}, {}
    for m in re.finditer(r"\benum\s+(\w+)\s*\{(.*?)\}", txt, re.S):
        enums[m.group(1)] = {a: int(b) for a, b in re.findall(r"(\w+)\s*=\s*(\d+)\s*;", m.group(2))}
    for m in re.finditer(r"\bmessage\s+(\w+)\s*\{(.*?)\}", txt, re.S):
        fs = []
        for lab, ty, nm in re.findall(r"\b(optional|required|repeated)\s+(\w+)\s+(\w+)\s*=\s*\d+", m.group(2)):
            fs.append((nm.lower(), lab, ty))
        msgs[m.group(1)] = fs
    return msgs, enums


class Program:
    def __init__(self, repo, files, work):
        self.repo = repo
        self.funcs = {}      # mangled -> Func
        self.byname = {}     # qualified name -> [Func]
        self.records = {}    # qualified name -> Record
        self.enumconst = {}  # name -> int   (craft and proto; also Enum::Const)
        self.aliases = {}
        self.globals = {}    # (tu, id) -> VarDecl
        self.globals_by_name = {}
        self.id2func = {}    # (tu, id) -> mangled
        self.id2node = {}
        self.msgs, self.enums = parse_proto(os.path.join(repo, "src/raftpb/raft.proto"))
        for en, cs in self.enums.items():
            for c, v in cs.items():
                self.enumconst[c] = v
        gen = os.path.join(work, "gen")
        os.makedirs(gen, exist_ok=True)
        r = subprocess.run([PROTOC, "--cpp_out=" + gen, "-I", repo, os.path.join(repo, "src/raftpb/raft.proto")],
                           capture_output=True, text=True)
        if r.returncode:
            raise ExtractError("protoc failed: " + r.stderr[:2000])
        self.gen = gen

        def dump(f):
            cmd = [CLANG, "-std=c++17", "-I", gen, "-I", repo, "-I", os.path.join(repo, "src"), "-fsyntax-only",
                   "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=craft::", os.path.join(repo, f)]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise ExtractError("clang failed on %s: %s" % (f, p.stderr[:3000]))
            return p.stdout
        with ThreadPoolExecutor(6) as ex:
            outs = list(ex.map(dump, files))
        for tu, (f, txt) in enumerate(zip(files, outs)):
            for d in load_docs(txt):
                self._ctxid = {}
                self.add_decl(tu, f, d, None)
        self.link()

    # -- declarations
    def add_decl(self, tu, f, d, scope):
        k = d.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in d.get("inner", []):
                self.add_decl(tu, f, c, scope)
            return
        if k == "CXXRecordDecl":
            nm = d.get("name")
            if not nm:
                return
            self.id2node[(tu, d["id"])] = d
            q = (scope + "::" + nm) if scope else "craft::" + nm
            if scope is None and d.get("parentDeclContextId"):
                q = "craft::" + nm
            d["$q"] = q
            if d.get("completeDefinition") and q not in self.records:
                self.records[q] = Record(q, d, tu, f)
            for c in d.get("inner", []):
                self.add_decl(tu, f, c, q)
            return
        if k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
            self.id2node[(tu, d["id"])] = d
            d["$scope"] = scope
            self.reg_func(tu, f, d)
            return
        if k == "FunctionDecl":
            self.id2node[(tu, d["id"])] = d
            d["$scope"] = "craft"
            self.reg_func(tu, f, d)
            return
        if k == "EnumDecl":
            v = 0
            for c in d.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    e = find_const(c)
                    if e is not None:
                        v = e
                    self.enumconst[c["name"]] = v
                    self.id2node[(tu, c["id"])] = c
                    c["$value"] = v
                    v += 1
            return
        if k in ("TypedefDecl", "TypeAliasDecl"):
            t = d.get("type", {})
            self.aliases[d["name"]] = t.get("desugaredQualType") or t.get("qualType")
            if scope:
                self.aliases[scope + "::" + d["name"]] = self.aliases[d["name"]]
            return
        if k == "VarDecl":
            self.globals[(tu, d["id"])] = d
            d["$tu"] = tu
            self.globals_by_name.setdefault(d.get("name"), []).append(d)
            return

    def reg_func(self, tu, f, d):
        mg = d.get("mangledName") or ("noname:%d:%s" % (tu, d["id"]))
        if d.get("kind") == "FunctionDecl" and d.get("storageClass") == "static":
            mg = "tu%d:%s" % (tu, mg)
        self.id2func[(tu, d["id"])] = mg
        body = any(c.get("kind") == "CompoundStmt" for c in d.get("inner", []))
        fn = self.funcs.get(mg)
        if fn is None:
            fn = self.funcs[mg] = Func(mg)
        fn.decls.append((tu, f, d))
        if body and fn.node is None:
            fn.node, fn.tu, fn.file = d, tu, f
        if d.get("$scope"):
            fn.scope = d["$scope"]
        fn.name = d.get("name")
        fn.virtual = fn.virtual or bool(d.get("virtual"))
        fn.pure = fn.pure or bool(d.get("pure"))

    def link(self):
        for mg, fn in self.funcs.items():
            # out-of-line definitions carry parentDeclContextId / previousDecl
            if fn.scope is None:
                for tu, f, d in fn.decls:
                    p = self.id2node.get((tu, d.get("parentDeclContextId")))
                    if p is not None and "$q" in p:
                        fn.scope = p["$q"]
            if fn.scope is None:
                m = re.match(r"_ZNK?5craft(.*)", mg)
                fn.scope = "craft"
                if m:
                    s, parts = m.group(1), []
                    while s and s[0].isdigit():
                        n = int(re.match(r"\d+", s).group(0))
                        s = s[len(str(n)):]
                        parts.append(s[:n])
                        s = s[n:]
                    if fn.decls[0][2]["kind"] == "CXXConstructorDecl":
                        fn.scope = "::".join(["craft"] + parts)
                    else:
                        fn.scope = "::".join(["craft"] + parts[:-1])
            fn.qname = fn.scope + "::" + (fn.name or "?")
            d = fn.node or fn.decls[0][2]
            fn.params = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            fn.kind = d["kind"]
            fn.type = d.get("type", {}).get("qualType", "")
            fn.const = fn.type.rstrip().endswith("const")
            fn.static = any(x[2].get("storageClass") == "static" for x in fn.decls) or fn.kind == "FunctionDecl"
            self.byname.setdefault(fn.qname, []).append(fn)

    def find(self, q, nparams=None, typ=None):
        fs = [f for f in self.byname.get(q, []) if f.node is not None]
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if typ is not None:
            fs = [f for f in fs if typ in f.type]
        if not fs:
            return None
        return fs[0]


def find_const(n):
    if n.get("kind") == "ConstantExpr" and "value" in n:
        return int(n["value"])
    if n.get("kind") == "IntegerLiteral":
        return int(n["value"])
    for c in n.get("inner", []):
        r = find_const(c)
        if r is not None:
            return r
    return None


class Func:
    def __init__(self, mg):
        self.mangled, self.decls, self.node = mg, [], None
        self.scope = self.name = self.qname = None
        self.virtual = self.pure = False
        self.tu = self.file = None

    @property
    def body(self):
        for c in self.node.get("inner", []):
            if c.get("kind") == "CompoundStmt":
                return c
        return None

    def srchash(self):
        return hashlib.sha1(json.dumps(strip_ids(self.node), sort_keys=True).encode()).hexdigest()[:16]


def strip_ids(n):
    if isinstance(n, dict):
        return {k: strip_ids(v) for k, v in n.items() if k not in ("id", "loc", "range", "previousDecl", "parentDeclContextId", "referencedMemberDecl") and not k.startswith("$")}
    if isinstance(n, list):
        return [strip_ids(x) for x in n]
    return n


class Record:
    def __init__(self, q, node, tu, f):
        self.q, self.node, self.tu, self.file = q, node, tu, f
        self.bases = [b.get("type", {}).get("desugaredQualType") or b.get("type", {}).get("qualType") for b in node.get("bases", [])]
        self.fields = []
        for c in node.get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name"):
                t = c.get("type", {})
                init = [x for x in c.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                self.fields.append((c["name"], t.get("desugaredQualType") or t.get("qualType"), init[0] if init else None))
