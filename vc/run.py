#!/usr/bin/env python3-vt
"""Check runner: run.py <property> [quick|thorough]

Extracts the functions under contract from /repo's current working tree (clang AST), generates the proof obligations of every
contract that serves the property, has them discharged, and writes /verif/evidence/<property>.json.
"""
import sys, os, json, time, shutil, tempfile, subprocess, multiprocessing, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")

MODULES = ["spec_quorum", "spec_tracker", "spec_util", "spec_log", "spec_storage", "spec_conf", "spec_readonly", "spec_raft", "spec_rawnode"]

TRUSTED_BASE = [
    "clang 18 front end (AST of the real sources) and the extraction in vc/cxx.py",
    "the verification-condition generator vc/ (C++ semantics of the supported subset; anything else is an error, never skipped)",
    "models of the C++ standard library containers, smart pointers, std::function, std::tuple and of the generated protobuf accessors (vc/lib.py)",
    "z3 4.x/5.x as obligation back end",
]
ASSUMPTIONS = [
    "logging calls below fatal have no effect; a fatal log call stops the process",
    "sequential execution, no exceptions, memory allocation succeeds",
    "containers hold fewer than 2^32 (sequences) / 2^30 (sets and maps) elements, strings fewer than 2^31 bytes",
    "distinct smart-pointer parameters may alias; a reference parameter or *this does not alias another reference parameter",
]


def load_modules():
    out = []
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + ".py")):
            out.append(importlib.import_module(m))
    return out


def contracts_for(mods, prop):
    seen, out = set(), []
    for m in mods:
        for c in m.CONTRACTS:
            if c.key in seen or not c.props or prop not in c.props:
                continue
            seen.add(c.key)
            out.append((home(mods, m, c), c))
    return out


def home(mods, m, c):
    """a contract is verified against the contract set of the module that defines it"""
    h = [x for x in mods if x.__name__ == c.fn.__module__ and any(y is c for y in x.CONTRACTS)]
    return h[0] if h else m


def worker(args):
    mi, key, prop, deadline, tier, case = args
    import drive
    from contract import Engine
    m = MODS[mi]
    con = [c for c in m.CONTRACTS if c.key == key][0]
    con.case = case
    eng = Engine(PROG, m.CONTRACTS, prop, getattr(m, "ABSTRACT", {}))
    drive.TIER = tier
    try:
        if hasattr(m, "setup"):
            m.setup(eng)
        r = drive.run_contract(eng, con, deadline)
    except BaseException as e:      # noqa
        r = {"key": key, "status": "error", "error": "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip(), "obligations": 0, "discharged": 0, "failed": [], "backends": {}, "solver_s": 0.0, "used": []}
    r.pop("obls", None)
    if case is not None:
        r["key"] += " (case %d of %d)" % (case + 1, con.ncases + 1)
    return r


def jobs_of(mi, c, prop, deadline, tier):
    return [(mi, c.key, prop, deadline, tier, k) for k in (range(c.ncases + 1) if c.ncases else [None])]


def main():
    global PROG, MODS
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 460 if tier == "quick" else 2400
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    viol, errors, results, replay = [], [], [], None
    covered = []
    known = known_findings(prop)
    try:
        import cxx, drive
        MODS = load_modules()
        todo = contracts_for(MODS, prop)
        trusted = []
        try:
            PROG = cxx.Program(REPO, drive.TUS, os.path.join(work, "x"))
        except Exception as e:
            PROG = None
            errors.append("extraction from the current source failed: %s" % str(e)[:2000])
        if PROG is not None:
            jobs = []
            for m, c in todo:
                if c.trusted:
                    trusted.append("%s: %s" % (c.key, c.trusted))
                else:
                    jobs += jobs_of(MODS.index(m), c, prop, deadline, tier)
            jobs.sort(key=lambda j: -getattr(MODS[j[0]], "COST", {}).get(j[1], 1))
            mp = multiprocessing.get_context("fork")
            with mp.Pool(min(8, os.cpu_count() or 2), maxtasksperchild=1) as pool:
                # worklist: a contract relied on at a call site is verified in this run as well
                started = {j[1] for j in jobs}
                pending = [(j, pool.apply_async(worker, (j,))) for j in jobs]
                t_fail = None
                while pending:
                    nxt = []
                    for j, r in pending:
                        if not r.ready():
                            nxt.append((j, r))
                            continue
                        res = r.get()
                        results.append(res)
                        for u in res.get("used", []):
                            if u not in started:
                                started.add(u)
                                k = next(((MODS.index(home(MODS, m, c)), c) for m in [MODS[j[0]]] + MODS for c in m.CONTRACTS if c.key == u), None)
                                if k and not k[1].trusted:
                                    for j2 in jobs_of(k[0], k[1], prop, deadline, tier):
                                        nxt.append((j2, pool.apply_async(worker, (j2,))))
                    pending = nxt
                    if t_fail is None and any(r["failed"] or r["status"] == "error" for r in results):
                        t_fail = time.time()
                    if time.time() > deadline + 60 or (t_fail and time.time() > t_fail + 60 and pending):
                        for j, r in pending:
                            results.append({"key": j[1], "status": "error", "error": "not finished when the run was cut short", "obligations": 0, "discharged": 0, "failed": [], "backends": {}, "solver_s": 0.0})
                        break
                    time.sleep(0.05)
                pool.terminate()
        failed = [(r["key"], f) for r in results for f in r["failed"]]
        errs = [(r["key"], r["error"]) for r in results if r["status"] == "error"]
        rc = 0
        lines = []
        if failed or errs or errors:
            rc = 1
            replay, found = make_replay(prop, failed, errs, errors, work, tier, seed, deadline)
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
        elif tier == "thorough":
            # deep run: also search for a failing input with the replay harness
            found, text = witness(prop, work, 240, seed)
            if found:
                rc = 1
                replay = write_replay(prop, text)
                lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
        for k in known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
        evidence(prop, tier, seed, results, trusted, errors, lines, time.time() - t0, rc, todo)
        for k, f in failed[:20]:
            print("failed obligation: %s | %s | in %s (%s)" % (k, f["name"], f["where"], f["status"]))
        for k, e in errs[:20]:
            print("no proof: %s: %s" % (k, e))
        for e in errors:
            print("no proof: " + e)
        print("%s: %d contracts, %d/%d obligations discharged, %.1f s" % (prop, len(results), sum(r["discharged"] for r in results), sum(r["obligations"] for r in results), time.time() - t0))
        for l in lines:
            print(l)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def write_replay(prop, text):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.txt" % prop)
    with open(p, "w") as f:
        f.write(text)
    return p


def make_replay(prop, failed, errs, errors, work, tier, seed, deadline):
    txt = ["property %s: obligations not discharged on the current source of %s" % (prop, REPO), ""]
    for k, f in failed:
        txt.append("contract %s\n  obligation: %s\n  in: %s\n  solver verdict: %s" % (k, f["name"], f["where"], f["status"]))
        if f.get("model"):
            txt.append("  solver counterexample (ghost and program variables):\n" + "\n".join("    " + l for l in f["model"].splitlines()[:120]))
    for k, e in errs:
        txt.append("contract %s\n  no proof: %s" % (k, e))
    for e in errors:
        txt.append("no proof: " + e)
    found, wt = False, ""
    try:
        found, wt = witness(prop, work, 100 if tier == "quick" else 600, seed)
    except Exception as e:
        wt = "witness search failed: %r" % (e,)
    txt.append("")
    txt.append("search for a failing input on the real code:")
    txt.append(wt)
    return write_replay(prop, "\n".join(txt) + "\n"), found


def witness(prop, work, secs, seed):
    """builds the replay harness against the current sources and searches for a concrete failing input"""
    h = os.path.join(VERIF, "harness", "build.sh")
    if not os.path.exists(h):
        return False, "no harness"
    exe = os.path.join(work, "witness")
    b = subprocess.run(["bash", h, REPO, os.path.join(work, "hb"), exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if b.returncode != 0 or not os.path.exists(exe):
        return False, "harness build failed:\n" + b.stdout.decode(errors="replace")[-3000:]
    try:
        r = subprocess.run([exe, prop, str(secs), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 60, cwd=work)
    except subprocess.TimeoutExpired as e:
        return False, "harness did not finish"
    out = r.stdout.decode(errors="replace")
    if r.returncode == 0:
        return False, "no failing input found:\n" + out[-2000:]
    if r.returncode == 3:
        return False, "no search implemented for this property\n" + out[-2000:]
    if r.returncode != 1:
        return False, "the search itself failed (exit %d):\n%s" % (r.returncode, out[-2000:])
    return True, "failing input on the real code (harness exit %d):\n%s" % (r.returncode, out[-20000:])


def evidence(prop, tier, seed, results, trusted, errors, lines, wall, rc, todo):
    be = {}
    for r in results:
        for k, v in r["backends"].items():
            be[k] = be.get(k, 0) + v
    used = sorted({u for r in results for u in r.get("used", [])})
    own = {c.key for _, c in todo}
    tu = {}
    for m in MODS:
        for c in m.CONTRACTS:
            if c.trusted and c.key in used:
                tu[c.key] = c.trusted
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(r["obligations"] for r in results),
            "discharged": sum(r["discharged"] for r in results),
            "checker_cmd": "python3-vt /verif/vc/run.py %s %s" % (prop, tier),
            "trusted_base": TRUSTED_BASE + ["trusted contract: %s (%s)" % x for x in sorted(tu.items())],
            "functions_under_contract": [{"function": r["key"], "status": r["status"], "obligations": r["obligations"], "discharged": r["discharged"], "paths": r.get("npaths", 0), "solver_s": round(r["solver_s"], 2), "source_sha": r.get("src"), "precondition": r.get("precondition_sat"), "error": r.get("error")} for r in results],
            "callee_contracts_used": [u for u in used if u not in own or True],
            "backends": be,
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "loop_invariants_inferred": sum(r.get("stats", {}).get("houdini_ok", 0) for r in results),
        },
        "wall_s": round(wall, 2),
        "assumptions": ASSUMPTIONS + ["trusted: " + k + " (" + v + ")" for k, v in sorted(tu.items())],
        "violations": sum(1 for l in lines if l.startswith("VIOLATION")),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
