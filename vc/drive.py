"""Discharging obligations and running the contracts of one property."""
import os, sys, time, traceback, json
from contract import *
import cxx

TIER = "quick"
TUS = ["src/" + x for x in ("quorum/majority.cc quorum/joint.cc tracker/inflights.cc tracker/progress.cc tracker/tracker.cc "
       "log_unstable.cc log.cc storage.cc util.cc read_only.cc raft.cc rawnode.cc status.cc confchange/confchange.cc "
       "confchange/restore.cc raftpb/confchange.cc raftpb/confstate.cc").split()]


# deterministic resource limits (independent of machine load) with a generous wall-clock backstop
RL = 12_000_000


def solve(hyps, goal, rlimit=RL, mode="ematch", wall=25000):
    s = z3.SimpleSolver() if mode.startswith("core") else z3.Solver()
    s.set("timeout", wall)
    s.set("rlimit", rlimit)
    if mode in ("fast", "core"):
        s.set("auto_config", False)
        s.set("mbqi", False)
    elif mode == "ematch":
        s.set("mbqi", False)
    elif mode == "relevancy":
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("relevancy", 0)
    elif mode == "seed":
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("random_seed", 7)
        s.set("arith.solver", 2)
    for a in str_axioms():
        s.add(a)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def has_str_quant():
    return True


def flat(hyps):
    out, todo = [], list(reversed(hyps))
    while todo:
        h = todo.pop()
        if z3.is_and(h):
            todo += reversed(h.children())
        else:
            out.append(h)
    return out


_SY = {}


def symbols(f):
    """uninterpreted symbols of a formula"""
    k = f.get_id()
    if k in _SY:
        return _SY[k][1]
    out, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().get_id())
            todo += x.children()
    _SY[k] = (f, out)
    return out


def sliced(hyps, goal, tol, depth):
    """hypotheses relevant to the goal (SInE selection): dropping hypotheses is sound"""
    hs = flat(hyps)
    ss = [symbols(h) for h in hs]
    occ = {}
    for s_ in ss:
        for x in s_:
            occ[x] = occ.get(x, 0) + 1
    trig = {}
    for n, s_ in enumerate(ss):
        if s_:
            mn = min(occ[x] for x in s_)
            for x in s_:
                if occ[x] <= tol * mn:
                    trig.setdefault(x, []).append(n)
    keep = {n for n, s_ in enumerate(ss) if not s_ or not has_quant(hs[n])}   # quantifier-free facts are cheap
    front = set(symbols(goal))
    done = set(front)
    for d in range(depth):
        new = set()
        for x in front:
            for n in trig.get(x, ()):
                if n not in keep or d == 0:
                    keep.add(n)
                    new |= ss[n]
        front = new - done
        done |= new
        if not front:
            break
    return [hs[n] for n in sorted(keep)]


def parts(hs, g, d=0):
    """(extra hypotheses, goal) pairs that together are equivalent to hs |- g"""
    if d < 6:
        if z3.is_and(g):
            return [q for x in g.children() for q in parts(hs, x, d + 1)]
        if z3.is_implies(g):
            return parts(hs + [g.arg(0)], g.arg(1), d + 1)
        if z3.is_eq(g) and z3.is_bool(g.arg(0)):
            return parts(hs + [g.arg(0)], g.arg(1), d + 1) + parts(hs + [g.arg(1)], g.arg(0), d + 1)
        if z3.is_not(g) and z3.is_or(g.arg(0)):
            return [q for x in g.arg(0).children() for q in parts(hs, z3.Not(x), d + 1)]
        if z3.is_not(g) and z3.is_not(g.arg(0)):
            return parts(hs, g.arg(0).arg(0), d + 1)
        if z3.is_not(g) and z3.is_and(g.arg(0)):
            cs = list(g.arg(0).children())
            return [(hs + cs[:-1], z3.Not(cs[-1]))]
        if z3.is_or(g):
            cs = list(g.children())
            return parts(hs + [z3.Not(x) for x in cs[:-1]], cs[-1], d + 1)
    return [(hs, g)]


_HQ = {}


def has_quant(f):
    k = f.get_id()
    if k not in _HQ:
        _HQ[k] = (f, z3.is_quantifier(f) or any(has_quant(x) for x in f.children()))
    return _HQ[k][1]


def discharge(o):
    """-> (status, backend, seconds, model-text)"""
    t0 = time.time()
    if z3.is_true(o.goal):
        return "proved", "simplifier", 0.0, None
    s = None
    if o.name.split("|")[-1].strip().startswith("safety") or "safety:" in o.name:
        # bounds, divisions, ... usually follow from the quantifier-free facts alone
        g = [h for h in flat(o.hyps) if not has_quant(h)]
        r, s = solve(g, o.goal, RL // 6, "core")
        if r == z3.unsat:
            return "proved", "z3(ground)", time.time() - t0, None
    r, s = solve(o.hyps, o.goal, RL // 8, "core")
    if r == z3.unsat:
        return "proved", "z3", time.time() - t0, None
    r, s = solve(o.hyps, o.goal, RL // 8, "fast")
    if r == z3.unsat:
        return "proved", "z3", time.time() - t0, None
    if r == z3.sat:
        return "failed", "z3", time.time() - t0, model_text(s)
    for tol, depth in ((1.5, 2), (3, 3)):
        r, s = solve(sliced(o.hyps, o.goal, tol, depth), o.goal, RL // 4, "core")
        if r == z3.unsat:
            return "proved", "z3(sliced)", time.time() - t0, None
    for mode, rl in (("core", RL), ("fast", RL // 2), ("ematch", RL), ("relevancy", RL), ("default", RL), ("seed", RL // 2)):
        r, s = solve(o.hyps, o.goal, rl, mode)
        if r == z3.unsat:
            return "proved", "z3" if mode == "fast" else "z3(%s)" % mode, time.time() - t0, None
        if r == z3.sat:
            return "failed", "z3", time.time() - t0, model_text(s)
    # proof of the parts
    ps = parts([], o.goal)
    if len(ps) > 1:
        for eh, g in ps:
            for mode, rl in (("core", RL), ("fast", RL // 2), ("ematch", RL), ("relevancy", RL)):
                r, s2 = solve(o.hyps + eh, g, rl, mode)
                if r == z3.unsat:
                    break
            if r != z3.unsat and cvc5_check(s2, 15) != "unsat":
                break
        else:
            return "proved", "z3(parts)", time.time() - t0, None
    if os.environ.get("VC_DUMP"):
        open(os.environ["VC_DUMP"], "w").write(s.to_smt2())
    st = cvc5_check(s, 20)
    if st == "unsat":
        return "proved", "cvc5", time.time() - t0, None
    mt = None
    try:
        mt = model_text(s)
    except Exception:
        pass
    return "unknown", "z3,cvc5", time.time() - t0, mt


def cvc5_check(s, secs):
    import subprocess
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (secs * 1000), "-q"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=secs + 5)
        return (r.stdout.strip().split("\n") or [""])[0]
    except (OSError, subprocess.SubprocessError):
        return "unknown"


def model_text(s):
    try:
        m = s.model()
    except z3.Z3Exception:
        return None
    out = []
    for d in m.decls()[:400]:
        if d.arity() == 0:
            out.append("%s = %s" % (d.name(), str(m[d])[:200]))
    return "\n".join(sorted(out))


def find_func(prog, con):
    for f in prog.byname.get(con.qname, []):
        if f.node is not None and f.body is not None and con.matches(f):
            return f
    return None


def want(o, prop):
    return prop is None or not o.tags or "*" in o.tags or prop in o.tags or any(t in ("safety", "frame", "nofatal") for t in o.tags)


def run_contract(eng, con, deadline=None, verbose=False, skip_discharge=False):
    t0 = time.time()
    res = {"key": con.key, "status": "ok", "obligations": 0, "discharged": 0, "failed": [], "backends": {}, "solver_s": 0.0, "error": None, "assumed": []}
    if con.lemma:
        obls = []
        con.fn(lambda name, hyps, goal: obls.append(Obl("lemma: " + name, ("*",), hyps, goal, "lemma", "")))
        ctx = None
        return finish(eng, con, res, obls, deadline, verbose, t0)
    f = find_func(eng.prog, con)
    if f is None and con.optional:
        res["status"] = "absent"
        return res
    if f is None:
        res["status"] = "error"
        res["error"] = "function under contract not found in the current source: " + con.key
        return res
    res["file"] = f.file
    res["src"] = f.srchash()
    ctx = Ctx(eng, con.qname)
    ctx.deadline = deadline
    ctx.precond = None
    try:
        con.verify(ctx, f)
    except Unsupported as e:
        res["status"] = "error"
        res["error"] = "unsupported: %s" % e
    except NeedReify as e:
        res["status"] = "error"
        res["error"] = "unsupported: unreified sequence"
    except RecursionError:
        res["status"] = "error"
        res["error"] = "recursion limit"
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception) as e:
        res["status"] = "error"
        res["error"] = "extraction/interpretation failed: %s" % "".join(traceback.format_exception_only(type(e), e)).strip()
        if verbose or os.environ.get("VC_TRACE"):
            traceback.print_exc()
    res["explore_s"] = time.time() - t0
    res["stats"] = ctx.stats
    res["npaths"] = ctx.stats["paths"]
    res["used"] = sorted(eng.used)
    obls = [o for o in ctx.obls if want(o, eng.prop)]
    res["obls"] = obls
    res["reached_end"] = ctx.reached_end if hasattr(ctx, "reached_end") else False
    if res["status"] == "ok" and ctx.precond is not None:
        r, _ = solve(ctx.precond, z3.BoolVal(False), 3_000_000)
        res["precondition_sat"] = str(r)
        if r == z3.unsat:
            res["status"] = "error"
            res["error"] = "vacuous: precondition of %s is unsatisfiable" % con.key
    if skip_discharge:
        return res
    return finish(eng, con, res, obls, deadline, verbose, t0)


def finish(eng, con, res, obls, deadline, verbose, t0):
    seen = {}
    for o in obls:
        if deadline and time.time() > deadline:
            res["status"] = "error"
            res["error"] = "time budget exhausted while discharging " + con.key
            break
        st, be, dt, mt = discharge(o)
        res["obligations"] += 1
        res["solver_s"] += dt
        res["backends"][be] = res["backends"].get(be, 0) + 1
        if st == "proved":
            res["discharged"] += 1
        else:
            res["failed"].append({"name": o.name, "where": o.where, "status": st, "model": mt, "tags": o.tags, "kind": o.kind})
            if verbose:
                print("   FAILED", st, o.name, "@", o.where, "%.1fs" % dt)
            if len(res["failed"]) >= 3:
                break
    res.pop("obls", None)
    res["wall_s"] = time.time() - t0
    return res
