"""Explorer core: runs a property's finite case space exhaustively on the real AMAT code, in parallel,
collects states/transitions, matches known findings, writes evidence and replay files.

A property module (mc/cNN.py) provides
    PID, LEVEL, RULE, ASSUME             constants
    cases(tier)  -> list of JSON-able cases (the complete bounded space, simplest first)
    run(case, R) -> explores one case on the real code, reporting to the Recorder R
"""
import os, sys, json, time, hashlib, signal, traceback, contextlib, io, warnings, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def setup_env():
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.chdir(REPO)
    warnings.simplefilter("ignore")


class Timeout(BaseException):
    pass


def h64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


class Recorder:
    def __init__(self):
        self.problems, self.states, self.steps, self.evals, self.nontriv = [], set(), 0, 0, set()
        self.sample = None

    def fail(self, sig, msg):
        if len(self.problems) < 40:
            self.problems.append((sig, str(msg)[:600]))

    def state(self, *key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.steps += n

    def ok(self, cond, sig, msg=""):
        self.evals += 1
        if not bool(cond):
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(cond)

    def near(self, got, want, sig, rtol=1e-7, atol=0.0, ctx=""):
        """elementwise |got-want| <= atol + rtol*|want|; shapes must agree; NaN never agrees with a number"""
        import numpy as np
        self.evals += 1
        try:
            g = np.asarray(got, dtype=float); w = np.asarray(want, dtype=float)
        except Exception as e:
            self.fail(sig, f"not numeric: {got!r} ({e}) {ctx}"); return False
        if g.shape != w.shape and w.shape != () :
            self.fail(sig, f"shape {g.shape} instead of {w.shape} {ctx}"); return False
        if g.shape != w.shape:
            if g.size != 1:
                self.fail(sig, f"shape {g.shape} instead of a scalar {ctx}"); return False
            g = g.reshape(())
        with np.errstate(all="ignore"):
            okm = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isinf(w) & (g == w)) | (np.isnan(w) & np.isnan(g))
        if not np.all(okm):
            i = np.unravel_index(int(np.argmin(okm)), okm.shape) if okm.shape else ()
            self.fail(sig, f"got {g[i]!r} want {w[i]!r} at {tuple(int(x) for x in i)} of {g.shape} {ctx() if callable(ctx) else ctx}")
            return False
        return True

    def outcome(self, *key):
        """record a distinct, non-trivial observed outcome"""
        self.nontriv.add(h64(key))


_mod = None


def _run_one(args):
    idx, case, limit = args
    R = Recorder()
    cwd = os.getcwd()

    def onalarm(s, f):
        raise Timeout()
    # the limit is on processor time, so that a busy machine does not look like a hang; a case that sleeps is ended by the clock
    signal.signal(signal.SIGALRM, onalarm)
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(int(3.5 * limit))
    import random, numpy as np
    random.seed(SEED); np.random.seed(SEED % (2**31))
    sink = io.StringIO()
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(sink), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            R.stdout = sink
            _mod.run(case, R)
    except Timeout:
        R.fail("no-termination", f"case did not finish within {limit} s of processor time")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        R.fail(f"exception:{type(e).__name__}", f"{e} @ " + " < ".join(f"{os.path.basename(t.filename)}:{t.lineno}:{t.name}" for t in tb[-4:][::-1]))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
    return idx, R.problems, R.states, R.steps, R.evals, R.nontriv, R.sample, time.time() - t0


def _run_chunk(tasks):
    return [_run_one(t) for t in tasks]


def _worker_init():
    """a case that allocates without bound must end as a MemoryError (a violation), not take the machine down"""
    import resource
    lim = int(os.environ.get("MC_MEM_GB", "4")) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))


def load_known(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known-findings.json")))
    except FileNotFoundError:
        return []
    return [k for k in d.get("known", []) if k["property"] == pid]


def is_known(known, sig, msg):
    for k in known:
        if k["signature"] == sig:
            return k
    return None


def main(mod, argv):
    global _mod
    _mod = mod
    pid = mod.PID
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    known = load_known(pid)
    limit = getattr(mod, "CASE_LIMIT", 200)
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        out = _run_one((0, rec["case"], limit))
        bad = [p for p in out[1] if not is_known(known, *p)]
        for p in out[1]:
            print("problem", p)
        print("REPRODUCED" if bad else "not reproduced")
        return 1 if bad else 0
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    os.environ["MC_TMP"] = tmp
    try:
        return _explore(mod, pid, tier, known, limit, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _explore(mod, pid, tier, known, limit, t0):
    import multiprocessing as mp
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    cases = list(mod.cases(tier))
    budget = 820 if tier == "quick" else 6 * 3600
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    states, steps, evals, nontriv, samples, done, tcase = set(), 0, 0, set(), [], 0, []
    bad, knownhits, capped = [], {}, False
    ctx = mp.get_context("fork")
    chunk = max(1, min(getattr(mod, "CHUNK", 8), len(cases) // (nproc * 4) or 1))
    lost = False
    with ctx.Pool(min(nproc, max(1, len(cases))), initializer=_worker_init) as pool:
        workers = {w.pid for w in pool._pool}
        tasks = [(i, c, limit) for i, c in enumerate(cases)]
        it = pool.imap_unordered(_run_chunk, [tasks[j:j + chunk] for j in range(0, len(tasks), chunk)], chunksize=1)
        pending = []
        while True:
            try:
                if not pending:
                    pending = list(it.next(timeout=2))
                r = pending.pop(0)
            except StopIteration:
                break
            except mp.TimeoutError:
                if {w.pid for w in pool._pool} != workers or any(w.exitcode is not None for w in pool._pool):
                    lost = capped = True      # a worker was killed: its cases never come back
                    break
                if time.time() - t0 > budget:
                    capped = True
                    break
                continue
            idx, problems, st, sp, ev, nt, smp, dt = r
            done += 1; states |= st; steps += sp; evals += ev; nontriv |= nt
            tcase.append((dt, idx))
            if smp is not None and len(samples) < 5:
                samples.append(smp)
            new = []
            for sig, msg in problems:
                k = is_known(known, sig, msg)
                if k:
                    knownhits.setdefault(sig, [0, msg, k]); knownhits[sig][0] += 1
                else:
                    new.append((sig, msg))
            if new:
                bad.append((idx, new))
                if len(bad) >= (1 if os.environ.get("MC_FAILFAST") else 12):
                    capped = True
                    break
        pool.terminate()
    if lost:
        seen = {i for _, i in tcase}
        rest = [i for i in range(len(cases)) if i not in seen]
        if rest and not bad:
            bad.append((rest[0], [("worker-died", f"the process exploring one of cases {rest[:12]} was ended by the system")]))
    if not samples:
        samples = [dict(case=c) for c in cases[:2]]
    wall = time.time() - t0
    exhaustive = not capped and done == len(cases)
    if mod.LEVEL == "model_checking":
        cov = dict(states=len(states), transitions=steps, traces_validated_against_impl=done,
                   samples=samples, exhaustive=exhaustive, assertions_evaluated=evals, distinct_outcomes=len(nontriv), rule=mod.RULE)
    else:
        cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=mod.RULE, samples=samples,
                   exhaustive=exhaustive, cases_run=done, states=len(states), api_calls=steps)
    cov["cases_total"] = len(cases)
    ev = dict(property=pid, tier=tier, seed=SEED, level=mod.LEVEL, coverage=cov, assumptions=list(mod.ASSUME),
              wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for sig, (n, msg, k) in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{sig}; seen {n}x]")
    tcase.sort(reverse=True)
    print(f"{pid} tier={tier} cases={done}/{len(cases)} states={len(states)} steps={steps} assertions={evals} "
          f"outcomes={len(nontriv)} exhaustive={exhaustive} wall={wall:.1f}s slowest={[(round(a, 1), b) for a, b in tcase[:3]]}")
    if bad:
        bad.sort(key=lambda b: b[0])
        for n, (idx, new) in enumerate(bad[:3]):
            path = os.path.join(VERIF, "evidence", "replay", f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=cases[idx], problems=new, replay_cmd=f"bash /verif/run.sh {pid} --replay {path}"), f, indent=1, default=str)
            for sig, msg in new[:4]:
                print(f"  case {idx}: {sig}: {msg}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
