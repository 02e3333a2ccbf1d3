"""check.py <property id> [--tier quick|thorough] : verify the property's contracts on /repo's current source."""
import argparse, hashlib, importlib, json, os, re, subprocess, sys, tempfile, time, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "contracts"))
sys.setrecursionlimit(20000)
import z3
import ir, sym, solve, spec
from api import *

VERIF = ir.VERIF
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class FnReport:
    def __init__(self, name, c):
        self.name, self.c = name, c
        self.error = None
        self.obls = []          # (Obl, result)
        self.failed = []
        self.mode = "A"
        self.secs = 0.0
        self.vac = None


def gen(unit, contracts, us, f, c, lemmas, mode):
    esc = set()
    while True:
        try:
            return gen_(unit, contracts, us, f, c, lemmas, mode, esc)
        except sym.EscapeError as e:
            if e.args[0] in esc:
                raise
            esc.add(e.args[0])


def gen_(unit, contracts, us, f, c, lemmas, mode, esc):
    ex = sym.Exec(unit, contracts, us.stl() if us.stl else STL(), solve.local, mode)
    ex.heapvecs = esc
    for n in c.opts.get("uses", []):
        ex.facts.append(lemmas[n].axiom())
        for m in [n] + list(lemmas[n].uses):
            if lemmas[m].assume:
                ex.trusted.add("axiom %s: %s" % (m, lemmas[m].assume))
    ex.lemma_names = list(c.opts.get("uses", []))
    ex.lemma_only = c.opts.get("with", {})
    ex.verify(f, c)
    return ex


def obl_terms(ex, o):
    facts = ex.facts[:o.facts]
    for sub, keep in ex.lemma_only.items():     # this obligation needs only these lemmas
        if sub in o.name:
            facts = [x for i, x in enumerate(facts) if i >= len(ex.lemma_names) or ex.lemma_names[i] in keep]
            break
    return lambda: solve.assertions(facts, o.goal)


class Ctx:
    pass


def verify_unit(us, tier, reports, lib, only=None, verbose=False):
    t0 = time.time()
    names = list(us.verify)
    src = us.src if us.src.startswith("/") else os.path.join(ir.REPO, us.src)
    u = ir.extract(src, names, us.flags)
    log("extracted %s in %.1fs" % (us.src, time.time() - t0))
    for k, v in us.opts.items():
        u.opts[k] = v
    if us.prep:
        us.prep(u)
    built = us.build(u)
    contracts = {}
    for c in built:
        contracts.setdefault(c.q, []).append(c)
    lemmas = {}
    for l in (us.lemmas(u) if us.lemmas else []):
        l.sortof = u.sort
        lemmas[l.name] = l
    work = []
    done = set()
    while len(done) < len(lemmas):
        ready = [n for n, l in lemmas.items() if n not in done and l.needs() <= done]
        if not ready:
            raise SystemExit("circular lemmas: %s" % sorted(set(lemmas) - done))
        done.update(ready)
    # lemmas
    for l in lemmas.values():
        if l.assume:
            continue
        r = FnReport("lemma " + l.name, None)
        reports.append(r)
        try:
            for nm, facts, goal in l.obligations(lemmas):
                o = sym.Obl(nm, "lemma", 0, goal, 0, "lemma")
                work.append((r, o, (lambda facts=facts, goal=goal: solve.assertions(facts, goal))))
        except Exception as ex:
            r.error = "%s: %s" % (type(ex).__name__, ex)
            if verbose:
                traceback.print_exc()
    execs = []
    for n in names:
        fs = [f for f in u.byname.get(n, []) if "body" in f]
        if us.inst:
            fs = [f for f in fs if us.inst(f)]
        if only and not any(x in n for x in only):
            continue
        if not fs:
            r = FnReport(n, None)
            r.error = "function under contract not found in the current source"
            reports.append(r)
            continue
        for c in contracts.get(n, []):
            mine = [f for f in fs if c.sig is None or (c.sig(f) if callable(c.sig) else list(c.sig) == list(f["pt"]))]
            if not c.verify:
                continue
            if not mine:
                r = FnReport(n, c)
                r.error = "no overload matches the contract signature"
                reports.append(r)
                continue
            for f in mine:
                t1 = time.time()
                tag = n if len(fs) == 1 else "%s(%s)" % (n if not f.get("cls") else n.replace(f["cls"].split("<")[0].split("::")[-1] + "::", f["cls"].split("::")[-1] + "::") , ",".join(f["pt"]))
                r = FnReport(tag, c)
                r.f, r.u, r.contracts, r.us, r.lemmas = f, u, contracts, us, lemmas
                reports.append(r)
                try:
                    ex = gen(u, contracts, us, f, c, lemmas, "A")
                    r.ex = ex
                    execs.append(ex)
                    for o in ex.obls:
                        work.append((r, o, obl_terms(ex, o)))
                    if ex.spec_errors:
                        r.spec_errors = ex.spec_errors
                    # vacuity probes: the precondition and the end of the function must not be contradictory
                    pre = ex.nfacts_pre
                    o = sym.Obl("vacuity: precondition satisfiable", "vacuity", pre, sym.FALSE, 0, n)
                    work.append((r, o, (lambda ex=ex, pre=pre: solve.assertions(ex.facts[:pre], sym.FALSE))))
                    rr = [s.reach for s, _ in ex.rets]
                    if not c.opts.get("no_exit_probe"):
                        o = sym.Obl("vacuity: a return is reachable", "vacuity", len(ex.facts), sym.FALSE, 0, n)
                        work.append((r, o, (lambda ex=ex, rr=rr: solve.assertions(ex.facts + [z3.Or(*rr)], sym.FALSE))))
                except (ir.VCError, spec.SpecError, z3.Z3Exception, KeyError, AttributeError, AssertionError, TypeError, IndexError, ValueError) as ex_:
                    r.error = "%s: %s" % (type(ex_).__name__, str(ex_)[:500])
                    if verbose:
                        traceback.print_exc()
                r.secs = time.time() - t1
                log("  %-70s %3d obligations %.1fs %s" % (r.name, len(r.ex.obls) if hasattr(r, "ex") else 0, r.secs, r.error or ""))
    return work, u


def discharge(work, tier, budget=None):
    vac = [w for w in work if w[1].kind == "vacuity"]
    real = [w for w in work if w[1].kind != "vacuity"]
    res = solve.many([w[2] for w in real], scale=1 if tier == "quick" else 3)
    for (r, o, _), x in zip(real, res):
        o.res = x
        r.obls.append(o)
        if x[0] != "proved":
            r.failed.append(o)
    vb = [("ematch", 3)] if tier == "quick" else [("ematch", 5), ("default", 10)]
    res = solve.many([w[2] for w in vac], vb)
    for (r, o, _), x in zip(vac, res):
        o.res = x
        if x[0] == "proved":
            o.name += " -- contradictory facts, every proof would be vacuous"
            r.failed.append(o)
            r.obls.append(o)
        r.vac = (r.vac or []) + [(o.name, x[0])]


def run_driver(P, tier, seed, outdir, limit=None):
    """returns (found, text)"""
    d = P.driver
    if d is None:
        return False, "no replay driver"
    tmp = tempfile.mkdtemp(prefix="vdrv_")
    try:
        exe = os.path.join(tmp, "drv")
        src = os.path.join(VERIF, "drivers", d.src)
        fl = [x for x in ir.cxxflags()]
        base = ["g++", "-O1", "-g", "-w", "-D_GLIBCXX_ASSERTIONS"] + fl + ["-I" + os.path.join(VERIF, "drivers")] + d.flags
        objs = []
        procs = []
        for i, s in enumerate([src] + [os.path.join(ir.REPO, x) for x in d.sources]):
            o = os.path.join(tmp, "o%d.o" % i)
            objs.append(o)
            procs.append((s, subprocess.Popen(base + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                for _, q in procs:
                    q.kill()
                return False, "replay driver does not compile against the current source (%s):\n%s" % (s, out[-3000:])
        p = subprocess.run(["g++"] + [x for x in d.flags if x.startswith("-fsanitize") or x.startswith("-fopenmp")] + objs + ["-o", exe] + d.libs, capture_output=True, text=True)
        if p.returncode != 0:
            return False, "replay driver does not link:\n" + p.stderr[-3000:]
        secs = d.secs if tier == "quick" else d.secs * 3
        if limit:
            secs = min(secs, limit) if tier == "quick" else secs
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
        env["TMPDIR"] = tmp
        try:
            p = subprocess.run([exe, str(seed), str(secs)], capture_output=True, timeout=secs + 60, env=env, cwd=tmp)
        except subprocess.TimeoutExpired as ex:
            return False, "replay driver timed out\n" + ((ex.stdout or b"").decode("latin1"))[-3000:]
        out = p.stdout.decode("latin1") + p.stderr.decode("latin1")
        if p.returncode != 0:
            return True, "replay on the real code (exit %d):\n%s" % (p.returncode, out[-6000:])
        return False, "replay search found no failing input:\n" + out[-2000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-driver", action="store_true")
    ap.add_argument("--driver-only", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module(a.id)
    P = mod.PROPERTY
    if os.environ.get("VERIF_RECORD"):
        sym.RECORD = {}
    outdir = os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join(outdir, "replay_%s.txt" % P.id)
    if a.driver_only:
        ok, txt = run_driver(P, tier, seed, outdir)
        print(ok, txt)
        return 1 if ok else 0
    reports = []
    work = []
    units = []
    trusted = set(P.assumptions)
    hard_error = []
    for us in P.units:
        try:
            w, u = verify_unit(us, tier, reports, None, a.only, a.v)
            work += w
            units.append(u)
        except (ir.VCError, subprocess.CalledProcessError) as ex:
            hard_error.append("unit %s: %s" % (us.src, ex))
            log("ERROR", hard_error[-1])
    if sym.RECORD is not None:
        # development aid: remember the names of the locals the contracts were written against
        p = os.path.join(VERIF, "contracts", "locals.json")
        try:
            d = json.load(open(p))
        except (OSError, ValueError):
            d = {}
        d.update(sym.RECORD)
        json.dump(d, open(p, "w"), indent=0, sort_keys=True)
        return 0
    t1 = time.time()
    discharge(work, tier)
    solver_s = sum(o.res[2] for r in reports for o in r.obls if o.res)
    log("discharged in %.1fs" % (time.time() - t1))
    bad = [r for r in reports if r.error or r.failed]
    nobl = sum(len(r.obls) for r in reports)
    found, dtext = False, ""
    if (bad or hard_error) and not a.only:
        for r in bad:
            log("FAILED %s: %s %s" % (r.name, r.error or "", [o.name for o in r.failed][:6]))
        if not a.no_driver:
            found, dtext = run_driver(P, tier, seed, outdir)
        if not found:
            # a busy machine can starve the solvers: look at what failed once more, alone and with more time
            solve.PATIENCE = 4
            for r in bad:
                if time.time() - T0 > 400 or r.error or any(o.res and o.res[0] == "sat" for o in r.failed):
                    continue
                if hasattr(r, "f"):
                    try:
                        ex = gen(r.u, r.contracts, r.us, r.f, r.c, r.lemmas, "A")
                    except Exception:
                        continue
                    r2 = FnReport(r.name, r.c)
                    w2 = [(r2, o, obl_terms(ex, o)) for o in ex.obls]
                else:
                    ex = None
                    r2 = FnReport(r.name, r.c)
                    w2 = [(r2, o, t) for r0, o, t in work if r0 is r]
                discharge(w2, "thorough")
                if not r2.failed:
                    log("  %s proved at the second attempt" % r.name)
                    r.obls, r.failed = r2.obls, []
                    if ex is not None:
                        r.ex = ex
            solve.PATIENCE = 1
            bad = [r for r in reports if r.error or r.failed]
        if not found:
            # retry with the invariant pool (Houdini): refactored loops may need a different assignment
            for r in bad:
                if not hasattr(r, "f"):
                    continue
                if time.time() - T0 > 600:
                    break
                if r.c is None or not (r.c.loops or r.c.pool):
                    continue
                try:
                    ex = gen(r.u, r.contracts, r.us, r.f, r.c, r.lemmas, "B")
                except Exception as e2:
                    log("mode B:", r.name, type(e2).__name__, e2)
                    continue
                r2 = FnReport(r.name, r.c)
                w2 = [(r2, o, obl_terms(ex, o)) for o in ex.obls]
                discharge(w2, tier)
                if not r2.failed:
                    log("  %s proved with invariant pool" % r.name)
                    r.obls, r.failed, r.error, r.mode, r.ex = r2.obls, [], None, "B", ex
                else:
                    log("  mode B fails:", r.name, [o.name for o in r2.failed][:4], ex.dropped[:10])
            bad = [r for r in reports if r.error or r.failed]
    bounded_run = None
    if P.bounded and not bad and not hard_error and not a.only and not a.no_driver:
        # stand-ins for functions outside the verifier's reach: bounded, never counted as proved
        t1 = time.time()
        found, dtext = run_driver(P, tier, seed, outdir, P.bounded_secs)
        bounded_run = {"functions": P.bounded, "wall_s": round(time.time() - t1, 1), "violation": found, "result": dtext[-300:]}
        log("bounded stand-in: %s" % dtext[-200:].strip())
        if found:
            hard_error.append("bounded check of %s failed" % ", ".join(P.bounded))
    if a.v or a.only:
        for r in reports:
            for o in r.obls:
                if o in r.failed or (a.v and o.res[2] > 3):
                    log("%-6s %s :: %s line %s  %s" % ("FAIL" if o in r.failed else "slow", r.name, o.name, o.loc, o.res[3][:6]))
    if nobl == 0 and not hard_error and not bad:
        hard_error.append("no obligation was generated")
    # evidence
    by = {}
    for r in reports:
        for o in r.obls:
            if o.res and o.res[0] == "proved" and o not in r.failed:
                by[o.res[1]] = by.get(o.res[1], 0) + 1
    inl, libs, callees = set(), set(), set()
    auto = 0
    for r in reports:
        if hasattr(r, "ex"):
            trusted |= r.ex.trusted
            inl |= r.ex.inlined
            libs |= r.ex.lib_used
            callees |= r.ex.callees
            auto += r.ex.auto_discharged
    assumed = []
    verified_q = {r.c.q for r in reports if r.c is not None and not r.error}
    for c in sorted(callees):
        if c not in verified_q:
            assumed.append("assumed contract (body not verified here): " + c)
    failed_total = sum(len(r.failed) for r in reports) + sum(1 for r in reports if r.error and not r.failed) + len(hard_error)
    viol = 1 if (bad or hard_error) else 0
    src_hash = hashlib.sha256()
    for u in units:
        for f in sorted({f["loc"]["file"] for f in u.functions.values()}):
            try:
                src_hash.update(open(f, "rb").read())
            except OSError:
                pass
    cmd = "python3-vt vc/check.py %s --tier %s" % (P.id, tier)
    ev = {"property": P.id, "tier": tier, "seed": seed, "level": "proof", "violations": viol, "wall_s": round(time.time() - T0, 2),
          "coverage": {
              "obligations": nobl, "discharged": nobl - sum(len(r.failed) for r in reports), "checker_cmd": cmd,
              "trusted_base": sorted(libs)[:80] + ["vc/extract.cpp (clang 18 front end)", "vc/sym.py, vc/stl.py (obligation generator, library contracts)", "z3 %s" % z3.get_version_string(), "cvc5"],
              "functions_under_contract": [{"function": r.name, "obligations": len(r.obls), "failed": [o.name for o in r.failed], "error": r.error, "loops_mode": r.mode,
                                            "kinds": kinds(r.obls), "vacuity": r.vac} for r in reports],
              "inlined_bodies": sorted(inl), "discharged_by": by, "auto_invariants_discharged_in_generation": auto, "solver_s": round(solver_s, 2),
              "generation_s": round(sum(r.secs for r in reports), 2),
              "bounded_stand_ins": bounded_run or P.bounded,
              "source_sha256": src_hash.hexdigest()},
          "assumptions": sorted(trusted) + assumed}
    json.dump(ev, open(os.path.join(outdir, P.id + ".json"), "w"), indent=1)
    if a.only:
        return 0
    if not bad and not hard_error:
        print("OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs" % (P.id, nobl, nobl, len(reports), time.time() - T0))
        return 0
    with open(replay, "w") as fh:
        fh.write("property %s\n" % P.id)
        for h in hard_error:
            fh.write("ERROR %s\n" % h)
        for r in bad:
            if r.error:
                fh.write("FUNCTION %s: obligations could not be generated: %s\n" % (r.name, r.error))
            for o in r.failed:
                fh.write("FAILED OBLIGATION %s :: %s (line %s)\n    solver: %s\n" % (r.name, o.name, o.loc, o.res[3] if o.res else ""))
        fh.write("\n" + dtext + "\n")
    if found:
        log(dtext[-1500:])
        print("VIOLATION property=%s replay=%s" % (P.id, replay))
    else:
        log(dtext[-600:])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (P.id, replay))
    return 1


def kinds(obls):
    d = {}
    for o in obls:
        d[o.kind] = d.get(o.kind, 0) + 1
    return d


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        p = os.path.join(VERIF, "evidence", "replay_%s.txt" % pid)
        open(p, "w").write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
