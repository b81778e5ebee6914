import os
"""Loops: inferred inductive invariants (Houdini over automatic + specification-supplied candidates)."""
from lib import *


class LoopCtx:
    """what a specification template sees"""
    pass


def has_exit(n, top=True):
    """body may leave the loop by break / return"""
    k = n.get("kind")
    if k == "ReturnStmt":
        return True
    if k == "BreakStmt":
        return True
    if k in ("LambdaExpr",):
        return False
    if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
        return any(has_ret(c) for c in n.get("inner", []) if isinstance(c, dict))
    return any(has_exit(c, False) for c in n.get("inner", []) if isinstance(c, dict))


def has_ret(n):
    if n.get("kind") == "ReturnStmt":
        return True
    if n.get("kind") == "LambdaExpr":
        return False
    return any(has_ret(c) for c in n.get("inner", []) if isinstance(c, dict))


def fprefix(path):
    out = []
    for e in path:
        if e[0] in ("f", "*"):
            out.append(e)
        else:
            break
    return tuple(out)


def sfx(path):
    s = ""
    for e in path:
        if e[0] == "f":
            s += "." + e[1]
        else:
            break
    return s


class Loops(Lib):
    def loop(self, n, cond, inc, body):
        def guard(k):
            return True if cond is None else self.cond(cond)

        def step():
            if inc is not None:
                self.ev(inc)
        return self.run_loop(n, guard, None, body, step, cond=cond)

    def range_loop(self, n, x, t, var, body):
        x = self.as_loc(x, t) if not isinstance(x, InitList) else self.cell(self.from_initlist(x, t), t)
        t = self.typeof(x)
        v = self.load(x)
        if isinstance(v, SeqV):
            if not isinstance(v.lift, LArr):
                v = self.reify_seq(v)
                self.store(x, v, log=False)
            self.lenfact(v)
            N = v.len
            item = lambda k: x.idx(k)
            keyf = None
        elif isinstance(v, (SetV, MapV)):
            N = self.enum_facts(v.mem)
            mem = v.mem
            keyf = lambda k: enum(mem, k)
            if isinstance(v, SetV):
                item = lambda k: enum(mem, k)
            else:
                item = lambda k: PairRef(enum(mem, k), x.key(enum(mem, k)))
        else:
            unsup("range-for over %r" % (v,))
        # constant small sequences are unrolled
        if isinstance(v, SeqV) and z3.is_int_value(simp(N)) and simp(N).as_long() <= 4:
            for j in range(simp(N).as_long()):
                self.bind_loopvar(var, x.idx(z3.IntVal(j)))
                r = self.stmt(body)
                if r is not None:
                    if r[0] == "brk":
                        return None
                    if r[0] == "ret":
                        return r
            return None

        def guard(k):
            return self.decide(k < N)

        def bind(k):
            if isinstance(v, SeqV):
                cur = self.load(x)
                self.lenfact(cur)
                if not cur.len.eq(N):
                    self.safety("container not resized while iterated", cur.len == N)
            else:
                self.fact(z3.Select(mem, enum(mem, k)))
                self.fact(posn(mem, enum(mem, k)) == k)
                self.rangefact(enum(mem, k), v.kt)
                cur = self.load(x)
                if not cur.mem.eq(mem):
                    self.safety("container not modified while iterated", cur.mem == mem)
            self.bind_loopvar(var, item(k))
        return self.run_loop(n, guard, bind, body, lambda: None, N=N, keyf=keyf, cont=x, contv=v)

    def bind_loopvar(self, var, x):
        if var["kind"] == "DecompositionDecl":
            return self.decomp(var, value=x)
        qs = var.get("type", {}).get("qualType", "")
        t = self.T(var)
        if isinstance(x, PairRef) or (isinstance(x, Loc) and (Types.isref(qs) or nstr(var).rstrip().endswith("&"))):
            b = x
            if isinstance(x, PairRef) and not Types.isref(qs):
                b = self.cell(self.coerce(x, t), t)
        else:
            b = self.cell(self.coerce(self.rv(x), t), t)
        self.fr.locals[var["id"]] = b
        if var.get("name"):
            self.fr.names[var["name"]] = b
        if isinstance(x, Loc):
            v = self.load(x)
            if z3.is_expr(v):
                self.rangefact(v, self.typeof(x))

    # ------------------------------------------------------------
    def run_loop(self, n, guard, bind, body, step, N=None, keyf=None, cond=None, cont=None, contv=None):
        key = (self.kb, tuple(self.dec), self.nexp, "loop", self.counter)
        depth = len(self.frames)

        def one(k, st0):
            """one iteration from the current state; returns ('next'|'brk'|('ret',v)|'exit')"""
            if not guard(k):
                return ("exit",)
            for h in self.hints(self.lctx(st0, self.st, k, N, keyf, n, cont, contv), k):
                self.assume(h)
            if bind:
                bind(k)
            r = self.stmt(body)
            if r is not None and r[0] in ("brk", "ret"):
                return r
            step()
            return ("next",)

        # reify everything the loop may touch lazily: snapshot
        info = self.houdini_cache.get(key)
        if info is None:
            r = self.infer(n, one, N, keyf, cond, cont, contv, body)
            info = self.houdini_cache[key] = r + (self.nexp, self.counter)
        mods, alive, self.nexp, self.counter = info
        self.reify_mods(mods)
        st0 = self.st.copy()
        k = self.freshint("k")
        self.assume(k >= 0)
        if N is not None:
            self.assume(k <= N)
        self.havoc_mods(mods, st0)
        cands = self.candidates(st0, self.st, k, mods, N, keyf, n, cond, cont, contv)
        for nm, f in cands:
            if nm in alive:
                self.assume(f)
        if self.eng.trace:
            print("LOOP", self.where(), n.get("range", {}).get("begin", {}).get("line"), "mods", mods, "alive", sorted(alive))
        want_body = (not self.quiet) or has_exit(body)
        if not want_body:
            br = 0
        else:
            br = self.choice(2)
        if br == 0:
            if guard(k):
                raise PathEnd()
            if N is not None and self.valid(k == N, 500):
                self.assume(k == N)
            for h in self.hints(self.lctx(st0, self.st, k, N, keyf, n, cont, contv), k, at_exit=True):
                self.assume(h)
            return None
        r = one(k, st0)
        if r[0] == "brk":
            return None
        if r[0] == "ret":
            return r
        raise PathEnd()

    def hints(self, L, k, at_exit=False):
        c = self.cur_contract
        if c is None:
            return []
        out = []
        for h in c.loop_hints:
            out += list(h(L, k, at_exit) or [])
        return out

    def lctx(self, st0, st, k, N, keyf, n, cont, contv):
        L = LoopCtx()
        L.ctx, L.pre, L.cur, L.k, L.N, L.key, L.node = self, st0, st, k, N, keyf, n
        L.frame = self.fr
        L.cont, L.contv = cont, contv
        return L

    # ---- modified set
    def collect_mods(self, outs, st0, base_alloc):
        mods = set()
        for o in outs:
            for root, path in o.lh:
                if root[0] == "c":
                    if root[1] in st0.cells:
                        mods.add(("c", root[1], fprefix(path)))
                elif root[0] == "h":
                    mods.add(("h", root[1], sfx(path)))
                elif root[0] == "hf":
                    mods.add(("h", root[1], ""))
            if not o.st.alloc.eq(base_alloc):
                mods.add(("alloc",))
        # drop entries subsumed by a shorter prefix
        out = set()
        for m in mods:
            if m[0] == "c" and any(x[0] == "c" and x[1] == m[1] and x[2] != m[2] and m[2][:len(x[2])] == x[2] for x in mods):
                continue
            if m[0] == "h" and any(x[0] == "h" and x[1] == m[1] and x[2] != m[2] and (x[2] == "" or m[2].startswith(x[2] + ".")) for x in mods):
                continue
            out.add(m)
        return out

    def reify_mods(self, mods):
        for m in sorted(mods, key=str):
            if m[0] == "c":
                loc = Loc(("c", m[1]), m[2])
                v = self.load(loc)
                if isinstance(v, (SeqV, StructV, OptV)):
                    nv = self.reify(v, self.typeof(loc))
                    if nv is not v:
                        self.store(loc, nv, log=False)

    def havoc_mods(self, mods, st0):
        for m in sorted(mods, key=str):
            if m[0] == "c":
                loc = Loc(("c", m[1]), m[2])
                v = self.load(loc)
                t = self.typeof(loc)
                if isinstance(v, ItV):
                    nv = ItV(v.loc, self.freshint("it") if v.pos.sort() == INT else self.fresh("it", BOOL), v.kind, v.key, v.rev)
                elif isinstance(v, RawV):
                    nv = RawV(v.loc, self.freshint("off") if v.off is not None else None)
                elif t[0] == "opaque":
                    nv = v
                else:
                    nv = self.freshval(t, "lp")
                    if isinstance(v, OptV) and t[0] == "uniq" and False:
                        pass
                    if z3.is_expr(nv):
                        self.rangefact(nv, t)
                    elif isinstance(nv, SeqV):
                        self.lenfact(nv)
                self.wlog.append((loc.root, loc.path))   # individual writes are frame-checked in the iteration path
                self.st.cells[m[1]] = self.upd(self.st.cells[m[1]], m[2], nv, self.ctype[m[1]])
            elif m[0] == "h":
                for s, so, lt in self.ty.leaves(("struct", m[1])):
                    if under(s, m[2]):
                        self.hget(self.st, m[1], s)
                        self.hget(st0, m[1], s)
                        self.st.heap[(m[1], s)] = self.fresh("hp~%s" % s, z3.ArraySort(INT, so))
                self.wlog.append((("hl", m[1]), m[2]))
            elif m[0] == "alloc":
                a = self.freshint("alloc")
                self.assume(a >= st0.alloc)
                self.st.alloc = a

    # ---- candidates
    def flat(self, v, t):
        """[(suffix, term, leaf type)]"""
        lts = {s: lt for s, so, lt in self.ty.leaves(t)}
        return [(s, x, lts[s]) for s, x in unbuild(self.ty, v, t)]

    def candidates(self, st0, st, k, mods, N, keyf, n, cond, cont, contv):
        out = []
        for m in sorted(mods, key=str):
            if m[0] == "c":
                loc = Loc(("c", m[1]), m[2])
                a, b = self.load(loc, st0), self.load(loc, st)
                nm = "c%d%s" % (m[1], "".join(e[1] if e[0] == "f" else "*" for e in m[2]))
                if isinstance(a, ItV):
                    if a.pos.sort() == INT:
                        out += self.int_cands(nm, a.pos, b.pos, k, ("int", 64, 1))
                    continue
                if isinstance(a, RawV):
                    if a.off is not None:
                        out += self.int_cands(nm, a.off, b.off, k, ("int", 64, 1))
                    continue
                if isinstance(a, OpaqueV) or a is None:
                    continue
                t = self.typeof(loc)
                fa, fb = self.flat(a, t), self.flat(b, t)
                for (s, x, lt), (_, y, _) in zip(fa, fb):
                    if x.eq(y):
                        continue
                    if x.sort() == INT:
                        out += self.int_cands(nm + s, x, y, k, lt)
                    else:
                        out.append((nm + s + "==", x == y))
                        if "[]" in s and s.count("[]") == 1:
                            pl = s[:s.index("[]")] + "#"
                            ln = [z for (ss, z, _) in fa if ss == pl]
                            if ln and x.domain() == INT:
                                i = z3.Int("i!p")
                                out.append((nm + s + "prefix", z3.ForAll([i], Implies(z3.And(i >= 0, i < ln[0]), z3.Select(y, i) == z3.Select(x, i)), patterns=[z3.Select(y, i)])))
            elif m[0] == "h":
                for s, so, lt in self.ty.leaves(("struct", m[1])):
                    if under(s, m[2]):
                        x, y = self.hget(st0, m[1], s), self.hget(st, m[1], s)
                        if m[2]:
                            out.append(("h|%s%s==" % (m[1], s), x == y))
                        r = z3.Int("r!f")
                        out.append(("h|%s%sframe" % (m[1], s), z3.ForAll([r], Implies(r < st0.alloc, z3.Select(y, r) == z3.Select(x, r)), patterns=[z3.Select(y, r)])))
        if cond is not None:
            out += self.cond_cands(cond, st)
        c = self.cur_contract
        if c is not None:
            L = self.lctx(st0, st, k, N, keyf, n, cont, contv)
            L.mods = mods
            for tm in c.loop_templates:
                try:
                    r = list(tm(L) or [])
                except (KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
                    if self.eng.trace:
                        print("template error", repr(e))
                    r = []
                out += [("t:" + a, b) for a, b in r]
        seen, res = set(), []
        for a, b in out:
            while a in seen:
                a += "'"
            seen.add(a)
            res.append((a, b))
        return res

    def int_cands(self, nm, x, y, k, lt):
        out = [(nm + "==", y == x), (nm + "+k", y == x + k), (nm + "-k", y == x - k), (nm + "<=+k", y <= x + k), (nm + ">=", y >= x), (nm + "<=", y <= x)]
        if lt[0] == "int" and not lt[2]:
            w = 2 ** lt[1]
            out.append((nm + "wrap-", z3.And(Implies(k <= x, y == x - k))))
        return out

    def cond_cands(self, cond, st):
        """relations a<=b / a>=b read off the loop condition (evaluated purely)"""
        out = []

        def walk(c):
            c = strip_expr(c)
            if c.get("kind") == "BinaryOperator":
                if c["opcode"] in ("&&", "||"):
                    for x in c["inner"]:
                        walk(x)
                elif c["opcode"] in ("<", ">", "!=", "<=", ">="):
                    a, b = c["inner"]
                    if self.is_pure(a) and self.is_pure(b) and self.simple(a) and self.simple(b):
                        try:
                            sv = self.st
                            self.st = st
                            self.quiet += 1
                            nh = len(self.hyps)
                            fs = dict(self.facts)
                            x, y = self.rv(self.ev(a)), self.rv(self.ev(b))
                            del self.hyps[nh:]
                            self.facts = fs
                            if z3.is_expr(x) and x.sort() == INT and y.sort() == INT:
                                if c["opcode"] in ("<", "<="):
                                    out.append(("cond<=", x <= (y if c["opcode"] == "<" else y + 1)))
                                elif c["opcode"] in (">", ">="):
                                    out.append(("cond>=", x >= (y if c["opcode"] == ">" else y - 1)))
                                else:
                                    out.append(("cond<=", x <= y))
                                    out.append(("cond>=", x >= y))
                        except (Unsupported, PathEnd, AttributeError, z3.Z3Exception):
                            pass
                        finally:
                            self.st = sv
                            self.quiet -= 1
        walk(cond)
        return out

    # ---- inference
    def infer(self, n, one, N, keyf, cond, cont, contv, body):
        t0 = time.time()
        self.quiet += 1
        try:
            mods = set()
            for _ in range(8):
                def run():
                    self.reify_mods(mods)
                    st0 = self.st.copy()
                    base = len(self.wlog)
                    k = self.freshint("k")
                    self.assume(k >= 0)
                    if N is not None:
                        self.assume(k < N)
                    self.havoc_mods(mods, st0)
                    a0 = self.st.alloc
                    r = one(k, st0)
                    return (r, st0, a0)
                outs = self.explore(run)
                new = set(mods)
                for o in outs:
                    r, st0, a0 = o.val
                    new |= self.collect_mods2(o, st0, a0)
                new = self.subsume(new)
                if new == mods:
                    break
                mods = new
            else:
                unsup("loop modified-set does not converge")
            # initial candidates
            def init():
                self.reify_mods(mods)
                st0 = self.st.copy()
                st = self.st.copy()
                self.hget_all(mods, st0)
                cs = self.candidates(st0, st0, z3.IntVal(0), mods, N, keyf, n, cond, cont, contv)
                # names come from a havocked instance so that vacuous equalities are not dropped
                k = self.freshint("k")
                h0 = self.hints(self.lctx(st0, st0, z3.IntVal(0), N, keyf, n, cont, contv), z3.IntVal(0))
                nh = len(self.hyps)
                for h in h0:
                    self.assume(h)
                ok = {}
                for nm, f in cs:
                    ok[nm] = self.valid(f)
                del self.hyps[nh:]
                self.sol_n = min(self.sol_n, len(self.hyps))
                self.solver = None
                sv = self.st
                self.havoc_mods(mods, st0)
                names = [nm for nm, f in self.candidates(st0, self.st, k, mods, N, keyf, n, cond, cont, contv)]
                return [nm for nm in names if ok.get(nm, None) is True or (nm not in ok and nm.endswith(("==", "prefix", "frame", "+k", "<=+k", "-k", ">=", "<=", "wrap-")) and not nm.startswith("t:"))]
            outs = self.explore(init)
            alive = set(outs[0].val) if outs else set()
            # candidates that were never inductive on the earlier paths through this loop are not tried again
            mem = self.loopmem.setdefault((n.get("id"), tuple(f.func.qname if f.func is not None else "" for f in self.frames)), {})
            alive -= {nm for nm, (bad, good) in mem.items() if bad >= 2 and good == 0}
            start = set(alive)
            if not outs:
                return mods, alive
            for rnd in range(40):
                def run2():
                    self.reify_mods(mods)
                    st0 = self.st.copy()
                    k = self.freshint("k")
                    self.assume(k >= 0)
                    if N is not None:
                        self.assume(k < N)
                    self.havoc_mods(mods, st0)
                    for nm, f in self.candidates(st0, self.st, k, mods, N, keyf, n, cond, cont, contv):
                        if nm in alive:
                            self.assume(f)
                    r = one(k, st0)
                    if r[0] != "next":
                        raise PathEnd()
                    self.reify_mods(mods)
                    for h in self.hints(self.lctx(st0, self.st, k + 1, N, keyf, n, cont, contv), simp(k + 1), at_exit=None):
                        self.assume(h)
                    cs = [(nm, f) for nm, f in self.candidates(st0, self.st, simp(k + 1), mods, N, keyf, n, cond, cont, contv) if nm in alive]
                    present = {nm for nm, _ in cs}
                    dead = set()
                    sol = self.full_solver(2000)
                    grp = {}
                    for nm, f in cs:
                        if nm.startswith("h|") and not z3.is_true(f):
                            grp.setdefault((nm.split(".")[0], nm.endswith("frame")), []).append((nm, f))
                    good = set()
                    for g in grp.values():
                        if len(g) > 1:
                            self.stats["houdini"] += 1
                            sol.push()
                            sol.add(Or(*[z3.Not(f) for _, f in g]))
                            if sol.check() == z3.unsat:
                                good |= {nm for nm, _ in g}
                            sol.pop()
                    for nm, f in cs:
                        if nm in good:
                            continue
                        f2 = simp(f) if not has_quant(f) else f
                        if z3.is_true(f2):
                            continue
                        self.stats["houdini"] += 1
                        tq = time.time()
                        sol.set("rlimit", 2000000 if nm.startswith("t:") or nm.endswith("#==") else 500000)
                        sol.push()
                        sol.add(z3.Not(f))
                        r = sol.check()
                        sol.pop()
                        if r == z3.unknown and nm.startswith("t:"):
                            for md in ("core", "relevancy", "auto"):
                                sx = self.full_solver(2000 if md == "core" else 1000, md)
                                sx.add(z3.Not(f))
                                r = sx.check()
                                if r != z3.unknown:
                                    break
                        if os.environ.get("VC_HOUD") and time.time() - tq > 0.3:
                            print("      houd", nm, r, "%.2f" % (time.time() - tq))
                        if r != z3.unsat:
                            dead.add(nm)
                    return dead
                outs = self.explore(run2)
                dead = set()
                for o in outs:
                    dead |= o.val
                if not dead:
                    break
                alive -= dead
            self.stats["houdini_ok"] += len(alive)
            for nm in start:
                if nm[:2] in ("t:", "h|"):
                    b, g = mem.get(nm, (0, 0))
                    mem[nm] = (b + (nm not in alive), g + (nm in alive))
            return mods, alive
        finally:
            self.quiet -= 1
            self.stats["houdini_t"] += time.time() - t0

    def hget_all(self, mods, st):
        for m in mods:
            if m[0] == "h":
                for s, so, lt in self.ty.leaves(("struct", m[1])):
                    if under(s, m[2]):
                        self.hget(st, m[1], s)

    def collect_mods2(self, o, st0, a0):
        mods = set()
        for root, path in o.lh:
            if root[0] == "c":
                if root[1] in st0.cells:
                    mods.add(("c", root[1], fprefix(path)))
            elif root[0] == "h":
                mods.add(("h", root[1], sfx(path)))
            elif root[0] == "hf":
                mods.add(("h", root[1], ""))
            elif root[0] == "hl":
                mods.add(("h", root[1], path))
        if not o.st.alloc.eq(a0):
            mods.add(("alloc",))
        return mods

    def subsume(self, mods):
        out = set()
        for m in mods:
            if m[0] == "c" and any(x[0] == "c" and x[1] == m[1] and x[2] != m[2] and m[2][:len(x[2])] == x[2] for x in mods):
                continue
            if m[0] == "h" and any(x[0] == "h" and x[1] == m[1] and x[2] != m[2] and (x[2] == "" or m[2].startswith(x[2] + ".")) for x in mods):
                continue
            out.add(m)
        return out

    def full_solver(self, timeout, mode="fast"):
        s = z3.SimpleSolver() if mode == "core" else z3.Solver()
        s.set("timeout", 30000)
        s.set("rlimit", timeout * 1000)
        s.set("mbqi", False)
        if mode != "auto":
            s.set("auto_config", False)
        if mode == "relevancy":
            s.set("relevancy", 0)
        for a in str_axioms():
            s.add(a)
        for h in self.hyps:
            s.add(h.f)
        return s

    def valid(self, f, timeout=2000):
        g = simp(f) if not has_quant(f) else f
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = self.full_solver(timeout)
        s.add(z3.Not(f))
        return s.check() == z3.unsat


def under(s, pre):
    return pre == "" or s == pre or (s.startswith(pre) and s[len(pre)] in ".#[?!*")
