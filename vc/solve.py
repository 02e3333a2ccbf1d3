"""Discharging obligations: z3 (two configurations) then cvc5, in parallel child processes."""
import os, select, signal, subprocess, sys, tempfile, time, pickle
import z3
import spec as SP

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
CVC5 = "/usr/bin/cvc5"
for p in ("/usr/local/bin/cvc5", "/usr/bin/cvc5", "/opt/veriftools/bin/cvc5"):
    if os.path.exists(p):
        CVC5 = p
        break


_seeds = None


def seed(t):
    if z3.is_expr(t) and not z3.is_pattern(t) and _seeds is not None:
        _seeds.append(z3.Function("seed$" + str(t.sort()), t.sort(), z3.BoolSort())(t))


def inst(q):
    vs = [z3.FreshConst(q.var_sort(i), "sk_" + q.var_name(i).split("!")[0]) for i in range(q.num_vars())]
    for i in range(q.num_patterns()):
        for c in q.pattern(i).children():
            seed(z3.substitute_vars(c, *reversed(vs)))
    return z3.substitute_vars(q.body(), *reversed(vs))


def skolem(t, pos):
    """t (pos) or its negation, with outermost existentials (universals, under negation) replaced by fresh constants"""
    if z3.is_quantifier(t):
        if t.is_exists() == pos and not t.is_lambda():
            return skolem(inst(t), pos)
        return t if pos else z3.Not(t)
    if z3.is_not(t):
        return skolem(t.arg(0), not pos)
    if z3.is_implies(t):
        a, b = t.children()
        return z3.Or(skolem(a, False), skolem(b, True)) if pos else z3.And(skolem(a, True), skolem(b, False))
    if z3.is_and(t) or z3.is_or(t):
        cs = [skolem(c, pos) for c in t.children()]
        return (z3.And if z3.is_and(t) == pos else z3.Or)(*cs)
    return t if pos else z3.Not(t)


_sk = {}


def skfact(t):
    k = t.get_id()
    if k not in _sk:
        _sk[k] = (t, skolem(t, True) if hasex(t) else t)
    return _sk[k][1]


def hasex(t):
    """an existential (positively) or a universal (negatively) is reachable through connectives"""
    st = [(t, True)]
    while st:
        t, pos = st.pop()
        if z3.is_quantifier(t):
            if t.is_exists() == pos:
                return True
        elif z3.is_not(t):
            st.append((t.arg(0), not pos))
        elif z3.is_implies(t):
            st.append((t.arg(0), not pos))
            st.append((t.arg(1), pos))
        elif z3.is_and(t) or z3.is_or(t):
            st += [(c, pos) for c in t.children()]
    return False


def assertions(facts, goal, axioms=()):
    global _seeds
    ts = [skfact(f) for f in facts]
    _seeds = []
    ts.append(skolem(goal, False))
    ts += _seeds
    _seeds = None
    ts += list(axioms)
    ts += SP.unfold_ground(ts)
    return ts


def mk_solver(cfg, timeout_ms):
    if cfg == "ematch":
        s = z3.SolverFor("AUFLIRA") if False else z3.Solver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("smt.solve_eqs", False)   # keeps the names that triggers are written over
    elif cfg == "ematch2":
        s = z3.Solver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("smt.arith.solver", 2)
        s.set("smt.random_seed", 7)
    elif cfg == "nra":
        s = z3.Solver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("smt.arith.nl", True)
        s.set("smt.random_seed", 3)
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    return s


def run_cvc5(smt, secs):
    fd, p = tempfile.mkstemp(suffix=".smt2")
    os.write(fd, smt.encode())
    os.close(fd)
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % int(secs * 1000), "--lang=smt2", "--full-saturate-quant", p], capture_output=True, text=True,
                           timeout=secs + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout else "error"
        return o
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(p)


def solve_one(ts, budget):
    """-> (status, backend, seconds, detail)"""
    t0 = time.time()
    detail = []
    last = "unknown"
    for cfg, share in budget:
        t1 = time.time()
        if cfg == "cvc5":
            s = z3.Solver()
            s.add(*ts)
            smt = "(set-logic ALL)\n" + s.to_smt2()
            r = run_cvc5(smt, share)
            detail.append("cvc5:%s:%.1fs" % (r, time.time() - t1))
            if r == "unsat":
                return "proved", "cvc5", time.time() - t0, detail
            if r == "sat":
                last = "sat"
            continue
        s = mk_solver(cfg, share * 1000)
        s.add(*ts)
        try:
            r = s.check()
        except z3.Z3Exception as ex:
            detail.append("z3/%s:exception:%s" % (cfg, ex))
            continue
        detail.append("z3/%s:%s:%.1fs" % (cfg, r, time.time() - t1))
        if r == z3.unsat:
            return "proved", "z3/" + cfg, time.time() - t0, detail
        if r == z3.sat:
            m = ""
            try:
                m = s.model().sexpr()[:4000]
            except Exception:
                pass
            return "sat", "z3/" + cfg, time.time() - t0, detail + [m]
    return last, "", time.time() - t0, detail


PATIENCE = 1     # raised when a failing function is looked at again
STAGE1 = [("ematch", 2), ("ematch2", 1), ("cvc5", 2)]
STAGE2 = [("cvc5", 20), ("ematch", 20), ("default", 20), ("ematch2", 20)]
QUICK = STAGE1


def local(facts, goal, ms):
    """quick in-process check used while generating obligations"""
    ts = assertions(facts, goal)
    s = mk_solver("ematch", ms * PATIENCE)
    s.add(*ts)
    return s.check() == z3.unsat


def kill(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
            return
        except OSError:
            pass


def run_tasks(tasks, nproc, on_done, skip, deadline=None):
    """tasks: [(key, thunk -> assertions, budget)]; on_done(key, result) after each; skip(key) -> no longer needed"""
    running = {}
    nxt = 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < nproc:
            key, job, budget = tasks[nxt]
            nxt += 1
            if skip(key):
                continue
            if deadline and time.time() > deadline:
                on_done(key, ("unknown", "", 0.0, ["skipped: out of time"]))
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    out = solve_one(job() if callable(job) else job, budget)
                    os.write(w, pickle.dumps(out))
                    os.close(w)
                except BaseException as ex:
                    try:
                        os.write(w, pickle.dumps(("unknown", "", 0.0, ["solver process: %r" % (ex,)])))
                    except Exception:
                        pass
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [key, pid, time.time(), b"", sum(s for _, s in budget) + 20]
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 0.3)
        now = time.time()
        for fd in list(running):
            key, pid, t0, buf, total = running[fd]
            if skip(key):
                kill(pid)
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                continue
            if fd in rd:
                b = os.read(fd, 1 << 16)
                if b:
                    running[fd][3] += b
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                try:
                    res = pickle.loads(buf)
                except Exception:
                    res = ("unknown", "", now - t0, ["solver process died"])
                on_done(key, res)
            elif now - t0 > total or (deadline and now > deadline + 30):
                kill(pid)
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                on_done(key, ("unknown", "", now - t0, ["hard timeout"]))


def many(jobs, budget=None, nproc=None, deadline=None, scale=1, stage2=True):
    """jobs: list of assertion lists (or thunks). Returns list of (status, backend, secs, detail)."""
    nproc = nproc or NPROC
    res = [None] * len(jobs)

    def done1(i, r):
        res[i] = r
    run_tasks([(i, j, budget or STAGE1) for i, j in enumerate(jobs)], nproc, done1, lambda i: False, deadline)
    if budget is not None or not stage2:
        return res
    left = [i for i in range(len(jobs)) if res[i][0] != "proved"]
    # a model found by the complete solver settles the obligation
    left = [i for i in left if not (res[i][0] == "sat")]

    def done2(k, r):
        i = k[0]
        o = res[i]
        if o[0] == "proved" or o[0] == "sat" and r[0] != "proved":
            return
        if r[0] in ("proved", "sat"):
            res[i] = (r[0], r[1], o[2] + r[2], list(o[3]) + list(r[3]))
        else:
            res[i] = (o[0], o[1], o[2] + r[2], list(o[3]) + list(r[3]))
    # at most a few obligations in flight, every configuration of one obligation side by side
    tasks = [((i, c), jobs[i], [(c, s * scale)]) for i in left for c, s in STAGE2]
    dl = deadline or time.time() + 300 * scale
    run_tasks(tasks, nproc, done2, lambda k: res[k[0]][0] in ("proved", "sat"), dl)
    return res
