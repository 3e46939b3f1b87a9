"""C16: Monte Carlo batches. The random draws are replaced by every sequence of enumerated answers, the guided flight by a recording stand-in (and by real flights in the binding cases),
and the batch is interrupted at every file-system operation with every torn-write pattern."""
import os, sys, itertools, shutil, signal, random as rd
import numpy as np
from . import ref, guided
from .core import Timeout
PID, LEVEL = "C16", "model_checking"
RULE = ("all two-run draw sequences over (file x profile x dispersion level x entry angle/L-D draw) for the five batch drivers; two batches in a row on one vehicle; one batch of more than a hundred runs; one-profile files, draws that cross zero and draws without spread; every interruption point "
        "(each file open, rename, folder creation, each flight) x torn-write pattern (not opened, truncated, half written) of a three-run batch; pre-existing output folder; real flights replayed on "
        "fresh vehicles; states = (driver, recorded inputs) and post-crash disk states, transitions = runs flown")
ASSUME = ["numpy.savetxt-like text files; a crash loses at most the file being written", "drag-modulation batches use a ballistic vehicle", "the ballistic-coefficient dispersion, which is not recorded, is not judged"]
CHUNK = 1
CASE_LIMIT = 400
VARS = ["", "2", "D", "D2", "D_Earth"]
ARR = dict(terminal_apoapsis_arr="apo", terminal_periapsis_arr="peri", periapsis_raise_DV_arr="pdv", apoapsis_raise_DV_arr="adv", acc_net_g_max_arr="gmax", q_stag_max_arr="qmax", heatload_max_arr="hmax")
ONE = dict(terminal_apoapsis="apo", apoapsis_error="err", terminal_periapsis="peri", periapsis_raise_DV="pdv", apoapsis_raise_DV="adv")
NPOS, NM = 7, 3
REAL = {"": "TITAN", "2": "TITAN", "D": "VENUS", "D2": "MARS", "D_Earth": "EARTH"}


class Crash(BaseException):
    pass


HOOK = dict(on=False, n=0, at=None, mode=None, root=None, snap=None, dead=False, old=None)


def _hook(ev, args):
    H = HOOK
    if not H["on"] or ev not in ("open", "os.rename", "os.mkdir", "os.remove", "os.rmdir", "os.truncate"):
        return
    path = args[0]
    if not isinstance(path, (str, bytes)) or not os.fsdecode(path).startswith(H["root"]):
        return
    write = ev != "open" or (isinstance(args[1], str) and any(c in args[1] for c in "wax+")) or (args[1] is None and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR))
    if not write:
        return
    if H["dead"]:
        raise Crash()
    H["n"] += 1
    if H["snap"] is not None:                       # dry run: remember what the previously opened file finally held
        H["snap"].append((ev, os.fsdecode(path)))
    if H["at"] == H["n"]:
        H["dead"] = True
        if ev == "open" and H["mode"] != "before":
            H["on"] = False
            data = (H["old"] or {}).get(H["n"], b"")
            with open(path, "wb") as f:
                f.write(data[:len(data) // 2] if H["mode"] == "half" else b"")
            H["on"] = True
        raise Crash()


_installed = False


def install():
    global _installed
    if not _installed:
        sys.addaudithook(_hook); _installed = True


def cases(tier):
    out = []
    for v in VARS:
        n = 4 if tier == "quick" else 12
        out += [dict(kind="draws", var=v, part=k, of=n, big=tier == "thorough") for k in range(n)]
        out += [dict(kind="crash", var=v, part=k, of=4, runs=3 if tier == "quick" else 4) for k in range(4)]
        out += [dict(kind="folder", var=v), dict(kind="batches", var=v), dict(kind="raise", var=v), dict(kind="edge", var=v), dict(kind="long", var=v, runs=112 if tier == "quick" else 1003)]
        out.append(dict(kind="real", var=v, seed=0))
        if tier == "thorough":
            out += [dict(kind="real", var=v, seed=k) for k in range(1, 6)]
    out.sort(key=lambda c: c["kind"] != "real")
    return out


# ---------------------------------------------------------------- atmosphere files
def tables(seed):
    n = NPOS * NM
    k = np.arange(n)
    h = np.tile(np.linspace(0, 150.0, NPOS), NM)
    av = 60 * np.exp(-h / 15.0) * (1 + 0.1 * (k // NPOS)) * (1 + 0.3 * seed)
    sd = 3.0 + (k % 5)
    tot = av * (1 + 0.03 * np.sin(1.7 * k + seed))
    return h, av, sd, tot


def write(dirn, seed):
    h, av, sd, tot = tables(seed)
    lo, hi = av * (1 - 0.01 * sd), av * (1 + 0.015 * sd)
    f = os.path.join(dirn, f"atm{seed}.txt")
    np.savetxt(f, np.column_stack([sd, h, lo, av, hi, tot]), fmt="%.17g")
    return f


def profile(f, cols, npos, earth, i, k, km=True):
    T = np.loadtxt(f)
    s = slice((i - 1) * npos, i * npos)
    h = T[s, cols["h"]] * (1e3 if km else 1.0)
    av, tot = T[s, cols["a"]], T[s, cols["t"]]
    if earth:
        up = dn = av * 0.01 * T[s, cols["s"]]
    else:
        up, dn = T[s, cols["hi"]] - av, av - T[s, cols["lo"]]
    return h, av + (up if k >= 0 else dn) * k + (tot - av)


class Draws:
    """answers for the random draws of one batch: per run (file index, profile index, z for each normal draw)"""
    def __init__(self, runs):
        self.runs, self.i, self.log = runs, -1, []

    def next_run(self):
        self.i += 1
        self.log.append([]); self.nz = 0

    def cur(self):
        if self.i < 0:
            self.next_run()
        return self.runs[min(self.i, len(self.runs) - 1)]

    def choice(self, seq):
        x = seq[self.cur()[0] % len(seq)]
        self.log[-1].append(("file", list(seq), x)); return x

    def randint(self, a, b):
        j = self.cur()[1]
        x = b if j == "last" else a + j
        self.log[-1].append(("profile", (a, b), x)); return x

    def normal(self, loc=0.0, scale=1.0, size=None):
        zs = self.cur()[2]
        z = zs[self.nz % len(zs)]; self.nz += 1
        x = loc + scale * z
        self.log[-1].append(("normal", (loc, scale), x)); return x

    def __enter__(self):
        self.keep = rd.choice, rd.randint, np.random.normal
        rd.choice, rd.randint, np.random.normal = self.choice, self.randint, self.normal
        return self

    def __exit__(self, *a):
        rd.choice, rd.randint, np.random.normal = self.keep


STATE = ["h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0"]


def stub(flights, draws, fail_at=None):
    from AMAT.vehicle import Vehicle

    def fly(self, name, args):
        k = len(flights)
        hs = np.linspace(-500.0, 155e3, 41)
        rec = dict(name=name, args=args, state=[float(getattr(self, s)) for s in STATE], LD=self.LD, ratio=self.CL / self.CD, beta=self.beta, dens=np.array(self.planetObj.density_int(np.clip(hs, 0, None)), float))
        if fail_at == k:
            flights.append(rec); raise Crash()
        g = rec["state"][5]
        s = float(np.sum(rec["dens"][:20])) % 7.0
        # a flight that depends on everything it was given
        self.t_min_full = np.array([0.0, 0.1, 0.1, 0.25]); self.acc_net_g_full = np.array([0.1, 3.0 + s, 5.0 + k, 0.2])
        self.q_stag_total_full = np.array([1.0, 50.0 + g, 48.0 + s, 3.0])
        t = self.t_min_full * 60
        q = self.q_stag_total_full
        self.heatload_full = self.heatLoad0 + np.concatenate([[0.0], np.cumsum(0.5 * (q[1:] + q[:-1]) * np.diff(t))])
        self.h_km_full, self.v_kms_full = np.array([150.0, 80.0, 80.0, 149.0]), np.array([11.0, 9.0, 9.0, 8.0])
        for n in guided.KEYS:                       # the rest of what a flight leaves behind: glide part, last segment
            if not hasattr(self, n + "_full") or getattr(self, n + "_full") is None:
                setattr(self, n + "_full", np.array([1.0, 2.0, 2.0, 3.0]))
            a = getattr(self, n + "_full")
            setattr(self, n + ("_en" if name.startswith("D") else "_eg"), a[:2].copy())
            if hasattr(self, n):
                setattr(self, n, a[3:].copy())
        self.terminal_apoapsis, self.terminal_periapsis, self.apoapsis_perc_error = 1000.0 + g * 10 + s, -30.0 - s + self.LD, -1.5 + g
        self.periapsis_raise_DV, self.apoapsis_raise_DV = 12.0 + s, -7.0 + g + self.LD
        rec.update(apo=self.terminal_apoapsis, peri=self.terminal_periapsis, err=self.apoapsis_perc_error, pdv=self.periapsis_raise_DV, adv=self.apoapsis_raise_DV, gmax=max(self.acc_net_g_full), qmax=max(q),
                   hmax=max(self.heatload_full), hmax_kj=(self.heatload_full[-1] - self.heatLoad0) / 1e3)
        flights.append(rec)
        # the flight moves the vehicle, as real ones do
        self.setInitialState(12.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 777.0)
        self.delta_deg_array = np.array([0.0, 5.0])
        if draws is not None:
            draws.next_run()

    class S(Vehicle):
        def propogateGuidedEntry(self, *a): fly(self, "", a)
        def propogateGuidedEntry2(self, *a): fly(self, "2", a)
        def propogateGuidedEntryD(self, *a): fly(self, "D", a)
        def propogateGuidedEntryD2(self, *a): fly(self, "D2", a)
    return S


CFG = dict(efpa=(-7.1, 0.2), ld=(0.42, 0.05), sig=0.8)
COL = dict(s=0, h=1, lo=2, a=3, hi=4, t=5)


def mk(var, S, p, files, heat=0.0):
    drag = var.startswith("D")
    v = S("probe", 1500.0, 60.0 if drag else 120.0, 0.0 if drag else 0.4, 10.0, 0.0, 1.0, p)
    v.setInitialState(150.0, -70.0, 35.0, 11.3, 120.0, -6.9, 12.0, heat); v.setSolverParams(1e-6)
    v.setTargetOrbitParams(400.0, 2000.0, 50.0)
    if drag:
        v.setDragModulationVehicleParams(60.0, 5.0); v.setDragEntryPhaseParams(2.0, 20.0, 51, -300.0)
    else:
        v.setMaxRollRate(20.0); v.setEquilibriumGlideParams(60.0, 3.0, 7.0, 60.0, 51, -200.0)
    setup(var, v, files)
    return v


def setup(var, v, files):
    c = COL
    if not var.startswith("D"):
        v.setupMonteCarloSimulation(NPOS, NM, files, c["h"], c["lo"], c["a"], c["hi"], c["t"], True, *CFG["efpa"], *CFG["ld"], 2.0, 0.5, 1500.0, atmSigmaFactor=CFG["sig"])
    elif var == "D_Earth":
        v.setupMonteCarloSimulationD_Earth(NPOS, NM, files, c["h"], c["a"], c["s"], c["t"], True, *CFG["efpa"], 60.0, 0.0, 1.0, 2.0, 0.5, 1500.0)
    else:
        v.setupMonteCarloSimulationD(NPOS, NM, files, c["h"], c["lo"], c["a"], c["hi"], c["t"], True, *CFG["efpa"], 60.0, 0.0, 1.0, 2.0, 0.5, 1500.0)


def go(var, v, n, folder):
    getattr(v, "runMonteCarlo" + var)(n, folder)


def load(f):
    return np.atleast_1d(np.loadtxt(f))


def judge_disk(R, var, folder, flights, n, done, files, ctx, summary=True, heat=0.0):
    """folder after done completed runs of n; every completed run is recorded and in the summary"""
    for k in range(done):
        d = os.path.join(folder, f"#{k+1}")
        fl = flights[k]
        for f, key in ONE.items():
            R.near(load(os.path.join(d, f + ".txt")), [fl[key]], "run-result", rtol=1e-12, ctx=lambda: f"{ctx} run {k+1} {f}")
        R.near(load(os.path.join(d, "efpa.txt")), [fl["state"][5]], "run-entry-angle", rtol=1e-12, ctx=lambda: f"{ctx} run {k+1}")
        ld = load(os.path.join(d, "LD.txt"))
        R.near(ld, [fl["LD"]], "run-lift-to-drag", rtol=1e-12, ctx=lambda: f"{ctx} run {k+1}")
        R.near(fl["ratio"], fl["LD"], "flown-lift-to-drag", rtol=1e-12, atol=1e-15, ctx=lambda: f"{ctx} run {k+1}")
        af = open(os.path.join(d, "atmfile.txt")).read().strip()
        prof, sig = load(os.path.join(d, "profile.txt")), load(os.path.join(d, "atmSigma.txt"))
        if R.ok(af in files and prof.size == 1 and sig.size == 1 and 1 <= prof[0] <= NM and prof[0] == int(prof[0]), "run-inputs", lambda: f"{ctx} run {k+1}: {af} {prof} {sig}"):
            h, w = profile(af, COL, NPOS, var == "D_Earth", int(prof[0]), float(sig[0]))
            hs = np.clip(np.linspace(-500.0, 155e3, 41), 0, None)
            want = np.interp(hs, h, w, left=0.0, right=0.0)
            R.near(fl["dens"], want, "flown-atmosphere", rtol=1e-9, atol=1e-12, ctx=lambda: f"{ctx} run {k+1} {os.path.basename(af)} profile {prof} sigma {sig}")
        R.near(fl["state"][:5] + fl["state"][6:], [150.0, -70.0, 35.0, 11.3, 120.0, 12.0, heat], "reference-entry-state", rtol=1e-12, ctx=lambda: f"{ctx} run {k+1}")
        R.ok(fl["name"] == {"": "", "2": "2", "D": "D", "D2": "D2", "D_Earth": "D"}[var] and list(fl["args"]) == ([1.0, 2.0, 0.5, 1500.0] if var.startswith("D") else [2.0, 0.5, 1500.0]), "flight-arguments", lambda: f"{ctx} {fl['name']} {fl['args']}")
        R.state(var, af[-8:], prof[0] if prof.size else None, round(float(sig[0]), 6), round(fl["state"][5], 6))
    if not summary or not done:
        return
    for f, key in ARR.items():
        try:
            a = load(os.path.join(folder, f + ".txt"))
        except Exception as e:
            R.fail("summary-lost", f"{ctx}: {f} unreadable: {e}"); continue
        if not R.ok(len(a) >= done, "summary-lost", lambda: f"{ctx}: {f} holds {len(a)} of {done} completed runs"):
            continue
        want = [flights[k][key] for k in range(done)]
        if key == "hmax" and var in ("2", "D2"):
            alt = [flights[k]["hmax_kj"] for k in range(done)]
            alt2 = [flights[k]["hmax"] / 1e3 for k in range(done)]
            if np.allclose(a[:done], alt, rtol=1e-9, atol=0) or np.allclose(a[:done], alt2, rtol=1e-9, atol=0):
                continue
            want = alt
        R.near(a[:done], want, "summary", rtol=1e-9, ctx=lambda: f"{ctx} {f}")
        R.evals += 1


def judge_draws(R, var, draws, flights, folder, n, ctx):
    """the recorded inputs are this run's draws, with the configured mean and spread"""
    for k in range(n):
        if k >= len(draws.log) or not draws.log[k]:
            continue
        L = draws.log[k]
        d = os.path.join(folder, f"#{k+1}")
        e, s = load(os.path.join(d, "efpa.txt"))[0], load(os.path.join(d, "atmSigma.txt"))[0]
        nm = [x for x in L if x[0] == "normal"]
        if nm:
            R.ok(any(x[1] == CFG["efpa"] and x[2] == e for x in nm), "entry-angle-draw", lambda: f"{ctx} run {k+1}: {e} from {nm}")
            want = (0, CFG["sig"]) if not var.startswith("D") else (0, 1)
            R.ok(any(x[1] == want and x[2] == s for x in nm), "dispersion-draw", lambda: f"{ctx} run {k+1}: {s} from {nm}")
            if not var.startswith("D"):
                l = load(os.path.join(d, "LD.txt"))[0]
                R.ok(any(x[1] == CFG["ld"] and x[2] == l for x in nm), "lift-draw", lambda: f"{ctx} run {k+1}: {l} from {nm}")
        for x in L:
            if x[0] == "file":
                R.ok(open(os.path.join(d, "atmfile.txt")).read().strip() == x[2], "file-draw", lambda: f"{ctx} run {k+1}")
            if x[0] == "profile":
                R.ok(load(os.path.join(d, "profile.txt"))[0] == x[2], "profile-draw", lambda: f"{ctx} run {k+1}")


def scratch(tag):
    d = os.path.join(os.environ["MC_TMP"], f"c16-{os.getpid()}-{tag}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def batch(var, seq, files, folder, v=None, heat=0.0, fail_at=None, n=None):
    flights = []
    draws = Draws(seq)
    S = stub(flights, draws, fail_at)
    if v is None:
        p = ref.mk_planet("VENUS")
        v = mk(var, S, p, files, heat)
    else:
        v.__class__ = S
    with draws:
        draws.next_run()
        try:
            go(var, v, n or len(seq), folder)
        except Crash:
            pass
    return v, flights, draws


def flown_through_stub(var):
    """whether the batch driver flies its runs through the public guided-entry method that the stand-in replaces"""
    D = scratch("p")
    files = [write(D, s) for s in (0, 1)]
    keep = signal.setitimer(signal.ITIMER_PROF, 60)[0]
    try:
        v, fl, dr = batch(var, alphabet(False)[:2], files, os.path.join(D, "out"))
        return len(fl) >= 1
    except (Exception, Timeout):
        return False
    finally:
        signal.setitimer(signal.ITIMER_PROF, keep)
        shutil.rmtree(D, ignore_errors=True)


def run(c, R):
    if c["kind"] != "real" and not flown_through_stub(c["var"]):
        R.state("not-interposable", c["var"]); R.outcome("not-interposable", c["var"])     # the real flights still decide
        return
    return globals()["run_" + c["kind"]](c, R)


def alphabet(big):
    z = [(-1.5, 0.7, -0.4), (0.3, -2.0, 1.1), (0.0, 0.0, 0.0), (2.5, 1.0, -1.6)] if big else [(-1.5, 0.7, -0.4), (0.3, -2.0, 1.1), (0.0, 0.0, 0.0)]
    return [(f, pr, zz) for f in (0, 1) for pr in (0, 1, "last") for zz in z]


def run_draws(c, R):
    D = scratch("d")
    files = [write(D, s) for s in (0, 1)]
    al = alphabet(c["big"])
    seqs = list(itertools.product(al, repeat=2))[c["part"]::c["of"]]
    if c["part"] == 0:
        seqs += [(a, b, a) for a, b in zip(al, al[5:])] + [(a,) for a in al]
    out = os.path.join(D, "out")
    for j, seq in enumerate(seqs):
        shutil.rmtree(out, ignore_errors=True)
        heat = 20.0 if j % 3 == 0 else 0.0
        v, fl, dr = batch(c["var"], seq, files, out, heat=heat)
        ctx = f"{c['var'] or 'lift'} draws {seq}"
        if not fl:
            R.fail("no-flights", ctx); return
        R.step(len(fl))
        R.ok(len(fl) == len(seq), "number-of-runs", lambda: f"{ctx}: {len(fl)}")
        judge_disk(R, c["var"], out, fl, len(seq), len(seq), files, ctx, heat=heat)
        judge_draws(R, c["var"], dr, fl, out, len(seq), ctx)
        a = load(os.path.join(out, "terminal_apoapsis_arr.txt"))
        R.ok(len(a) == len(seq), "summary-length", ctx)
        R.outcome(c["var"], round(fl[-1]["apo"], 6), round(fl[0]["apo"], 6))
        if len(R.problems) > 10:
            break
    shutil.rmtree(D)
    R.sample = dict(case=c, sequences=len(seqs), last=str(seqs[-1]))


def run_edge(c, R):
    """configurations at the edge of the draws: files that hold one single profile, a nominal lift-to-drag ratio so small that draws cross zero, no spread at all"""
    global NM, CFG
    keep = NM, CFG
    D = scratch("e")
    out = os.path.join(D, "out")
    n = 0
    try:
        for nm, cfg in itertools.product((1, 2), (dict(efpa=(-7.1, 0.2), ld=(0.02, 0.05), sig=0.8), dict(efpa=(-0.1, 0.5), ld=(0.42, 0.0), sig=0.0), dict(efpa=(-20.0, 0.0), ld=(-0.3, 0.1), sig=3.0))):
            NM, CFG = nm, cfg
            files = [write(D, s) for s in (0, 1, 2)][:1 + nm]
            al = [(f, pr, z) for f in (0, 1) for pr in (0, "last") for z in [(-1.5, 0.7, -0.4), (0.3, -2.0, 1.1)]]
            for seq in [(a,) for a in al] + [(a, b) for a, b in zip(al, al[3:])]:
                shutil.rmtree(out, ignore_errors=True)
                v, fl, dr = batch(c["var"], seq, files, out)
                ctx = f"{c['var'] or 'lift'} {nm} profiles {cfg} draws {seq}"
                R.step(len(fl)); n += 1
                if R.ok(len(fl) == len(seq), "number-of-runs", lambda: f"{ctx}: {len(fl)}"):
                    judge_disk(R, c["var"], out, fl, len(seq), len(seq), files, ctx)
                    judge_draws(R, c["var"], dr, fl, out, len(seq), ctx)
                    R.outcome(c["var"], round(fl[-1]["apo"], 6))
    finally:
        NM, CFG = keep
        shutil.rmtree(D, ignore_errors=True)
    R.sample = dict(case=c, sequences=n)


def run_long(c, R):
    """a batch of many runs: every run keeps its own folder and its own entry in every summary"""
    D = scratch("l")
    files = [write(D, s) for s in (0, 1)]
    al = alphabet(True)
    seq = [(al[(5 * k) % len(al)][0], al[(7 * k) % len(al)][1], tuple(z + 0.001 * k for z in al[(3 * k) % len(al)][2])) for k in range(c["runs"])]
    out = os.path.join(D, "out")
    v, fl, dr = batch(c["var"], seq, files, out, heat=4.0)
    R.step(len(fl))
    ctx = f"{c['var'] or 'lift'} batch of {c['runs']} runs"
    if R.ok(len(fl) == len(seq), "number-of-runs", lambda: f"{ctx}: {len(fl)}"):
        judge_disk(R, c["var"], out, fl, len(seq), len(seq), files, ctx, heat=4.0)
        judge_draws(R, c["var"], dr, fl, out, len(seq), ctx)
        R.ok(len(load(os.path.join(out, "terminal_apoapsis_arr.txt"))) == len(seq), "summary-length", ctx)
        R.outcome(c["var"], len(seq), round(fl[-1]["apo"], 6))
    shutil.rmtree(D)
    R.sample = dict(case=c, runs=len(fl))


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(r, f)
            out[os.path.relpath(q, d)] = open(q, "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = "dir"
    return out


def run_crash(c, R):
    install()
    D = scratch("c")
    files = [write(D, s) for s in (0, 1)]
    al = alphabet(False)
    seq = [al[3], al[14], al[7], al[10]][:c["runs"]]
    out = os.path.join(D, "out")
    HOOK.update(on=True, n=0, at=None, root=out, snap=[], dead=False, old=None)
    try:
        batch(c["var"], seq, files, out)
    finally:
        HOOK["on"] = False
    ev = HOOK["snap"]; HOOK["snap"] = None
    # what each opened file holds at the time of the next event = its complete new content
    old = {}
    for i, (e, pth) in enumerate(ev, 1):
        if e == "open":
            shutil.rmtree(out, ignore_errors=True)
            HOOK.update(on=True, n=0, at=i + 1, mode="before", dead=False)
            try:
                batch(c["var"], seq, files, out)
            finally:
                HOOK["on"] = False
            old[i] = open(pth, "rb").read() if os.path.exists(pth) else b""
    points = [(i, m) for i, (e, pth) in enumerate(ev, 1) for m in (("before", "empty", "half") if e == "open" else ("before",))]
    for i, m in points[c["part"]::c["of"]]:
        shutil.rmtree(out, ignore_errors=True)
        HOOK.update(on=True, n=0, at=i, mode=m, dead=False, old=old)
        try:
            v, fl, dr = batch(c["var"], seq, files, out)
        finally:
            HOOK["on"] = False
        done = max(0, len(fl) - 1)
        R.step(len(fl))
        ctx = f"{c['var'] or 'lift'} interrupted at operation {i} ({ev[i-1][0]} {os.path.relpath(ev[i-1][1], out)}, {m}) after {done} completed runs"
        judge_disk(R, c["var"], out, fl, len(seq), done, files, ctx)
        R.state(c["var"], i, m); R.outcome(c["var"], i, m, done)
        if len(R.problems) > 10:
            break
    shutil.rmtree(D)
    R.sample = dict(case=c, events=len(ev), points=len(points))


def run_raise(c, R):
    """the flight of run k fails: everything before it is on disk"""
    D = scratch("r")
    files = [write(D, s) for s in (0, 1)]
    al = alphabet(False)
    for n in range(1, 6):
        seq = [al[(5 * j + 3) % len(al)] for j in range(n)]
        for k in range(n):
            out = os.path.join(D, "out"); shutil.rmtree(out, ignore_errors=True)
            v, fl, dr = batch(c["var"], seq, files, out, fail_at=k)
            R.step(k)
            judge_disk(R, c["var"], out, fl, n, k, files, f"{c['var'] or 'lift'} flight {k+1} of {n} fails")
            R.state(c["var"], n, k); R.outcome(c["var"], n, k)
    shutil.rmtree(D)
    R.sample = dict(case=c, batches=15)


def run_folder(c, R):
    """an existing output folder keeps every byte"""
    D = scratch("f")
    files = [write(D, s) for s in (0, 1)]
    al = alphabet(False)
    for pre in ("empty", "sentinel", "summary", "batch"):
        out = os.path.join(D, "out"); shutil.rmtree(out, ignore_errors=True)
        if pre == "batch":
            batch(c["var"], al[:3], files, out)
        else:
            os.makedirs(out)
            if pre != "empty":
                for f in ("notes.txt", "terminal_apoapsis_arr.txt", "#1")[:3 if pre == "sentinel" else 2]:
                    if f == "#1":
                        os.makedirs(os.path.join(out, f)); f = "#1/efpa.txt"
                    open(os.path.join(out, f), "w").write("precious\n")
        keep = tree(out)
        try:
            v, fl, dr = batch(c["var"], al[4:5 if pre == "batch" else 7 if pre == "empty" else 9], files, out)
            err = None
        except OSError as e:
            err = e
        R.step()
        now = tree(out)
        R.ok(all(now.get(k) == x for k, x in keep.items()), "output-folder-overwritten", lambda: f"{c['var'] or 'lift'} {pre}: {[k for k in keep if now.get(k) != keep[k]][:4]}")
        R.ok(err is not None or pre == "empty" or len(now) == len(keep), "written-into-existing-folder", lambda: f"{c['var'] or 'lift'} {pre}")
        R.outcome(c["var"], pre, type(err).__name__); R.state(c["var"], pre)
    # nested path that does not exist yet
    out = os.path.join(D, "a", "b", "out")
    v, fl, dr = batch(c["var"], al[:1], files, out)
    judge_disk(R, c["var"], out, fl, 1, 1, files, "nested folder")
    shutil.rmtree(D)
    R.sample = dict(case=c)


def run_batches(c, R):
    """a second batch on the same vehicle is the batch a fresh vehicle would have flown"""
    D = scratch("b")
    files = [write(D, s) for s in (0, 1)]
    al = alphabet(False)
    for a, b in itertools.product((al[:2], al[5:6], al[9:12]), (al[3:5], al[16:18])):
        o1, o2, o3 = (os.path.join(D, x) for x in ("one", "two", "three"))
        for o in (o1, o2, o3):
            shutil.rmtree(o, ignore_errors=True)
        v, f1, _ = batch(c["var"], a, files, o1, heat=3.0)
        keep = tree(o1)
        v, f2, _ = batch(c["var"], b, files, o2, v=v, heat=3.0)
        w, f3, _ = batch(c["var"], b, files, o3, heat=3.0)
        R.step(len(f1) + len(f2) + len(f3))
        R.ok(tree(o1) == keep, "earlier-batch-changed", c["var"])
        judge_disk(R, c["var"], o2, f2, len(b), len(b), files, f"{c['var'] or 'lift'} second batch", heat=3.0)
        for x, y in zip(f2, f3):
            R.near(x["state"] + [x["LD"], x["ratio"]], y["state"] + [y["LD"], y["ratio"]], "batch-dependence", rtol=1e-12, ctx=c["var"])
            R.near(x["dens"], y["dens"], "batch-dependence", rtol=1e-12, ctx=c["var"])
        R.outcome(c["var"], len(a), len(b)); R.state(c["var"], "batches", len(a), len(b))
    shutil.rmtree(D)
    R.sample = dict(case=c)


# ---------------------------------------------------------------- real flights
RF = {"": (["atmdata/Titan/FMINMAX-08.txt", "atmdata/Titan/FMINMAX+04.txt"], dict(h=0, lo=1, a=2, hi=3, t=4)),
      "2": (["atmdata/Titan/FMINMAX+00.txt", "atmdata/Titan/FMINMAX-10.txt"], dict(h=0, lo=1, a=2, hi=3, t=4)),
      "D": (["atmdata/Venus/LAT10N.txt", "atmdata/Venus/LAT10N.txt"], dict(h=0, lo=1, a=2, hi=3, t=4)),
      "D2": (["atmdata/Mars/LAT20S.txt"], dict(h=0, lo=1, a=2, hi=3, t=4))}


def run_real(c, R):
    from AMAT.vehicle import Vehicle
    from . import c13, c14
    var, s = c["var"], c["seed"]
    D = scratch("x")
    body = REAL[var]
    npos, nm = {"": (201, 200), "2": (201, 200), "D": (151, 200), "D2": (156, 200), "D_Earth": (None, 3)}[var]
    if var == "D_Earth":
        T = np.loadtxt(ref.ATM["EARTH"][0])
        h, d = T[:, 0], T[:, ref.ATM["EARTH"][4]]
        npos = len(h)
        rows = [np.column_stack([h, d * (1 + 0.02 * j), np.full(npos, 4.0 + j), d * (1 + 0.02 * j) * (1 + 0.01 * np.sin(np.arange(npos) + j))]) for j in range(3)]
        f = os.path.join(D, "earth.txt"); np.savetxt(f, np.vstack(rows), fmt="%.17g")
        files, cols, km = [f], dict(h=0, a=1, s=2, t=3), False
    else:
        files, cols = RF[var]
        files = [f for f in files if os.path.exists(f)]
        if not files:
            return
        h0 = np.loadtxt(files[0])[:, 0]
        if npos is None:
            npos = int(np.flatnonzero(np.diff(h0) * np.sign(h0[1] - h0[0]) < 0)[0]) + 1; nm = len(h0) // npos
        km = True
    rate = dict(rate=20.0)
    g = {"": -34.0, "2": -34.0, "D": -5.4, "D2": -8.3, "D_Earth": -3.9}[var]

    def vehicle(p):
        cc = dict(g=g, rate=20.0)
        if var.startswith("D"):
            v, cfg = c14.mk(body, p, cc, 1)
            v.beta = c14.BETAS[body][0][0]; v.CD = v.mass / (v.beta * v.A)
        else:
            v, cfg = c13.mk(body, p, cc, 1)
        return v
    mkp = lambda: c14.planet(body) if var.startswith("D") else ref.mk_planet(body)
    ts, tx, dt, T = {"": (4.0, 0, 2.0, 2500.0), "2": (4.0, 0, 2.0, 2500.0), "D": (4.0, 4.0, 1.0, 1200.0), "D2": (2.0, 2.0, 1.0, 1200.0), "D_Earth": (2.0, 2.0, 1.0, 1200.0)}[var]
    v = vehicle(mkp())
    st = [getattr(v, x) for x in STATE]
    e1, l1 = (g, 0.05), (v.LD, 0.01)
    if not var.startswith("D"):
        v.setupMonteCarloSimulation(npos, nm, files, cols["h"], cols["lo"], cols["a"], cols["hi"], cols["t"], km, *e1, *l1, ts, dt, T)
    elif var == "D_Earth":
        v.setupMonteCarloSimulationD_Earth(npos, nm, files, cols["h"], cols["a"], cols["s"], cols["t"], km, *e1, 60.0, 0.0, ts, tx, dt, T)
    else:
        v.setupMonteCarloSimulationD(npos, nm, files, cols["h"], cols["lo"], cols["a"], cols["hi"], cols["t"], km, *e1, 60.0, 0.0, ts, tx, dt, T)
    z = [(0.0, 1.0, 0.5), (1.0, -1.0, -1.0), (-1.0, 0.3, 0.2)]
    seq = [(0, s % nm, z[0]), (1, "last", z[1]), (0, 1 + 2 * s if nm > 3 else 1, z[2])][:3]
    out = os.path.join(D, "out")
    draws = Draws(seq)
    name = "propogateGuidedEntry" + {"": "", "2": "2", "D": "D", "D2": "D2", "D_Earth": "D"}[var]
    orig = getattr(Vehicle, name)
    cls = type("S", (Vehicle,), {name: lambda self, *a: (orig(self, *a), draws.next_run())[0]})
    v.__class__ = cls
    with draws:
        draws.next_run()
        go(var, v, 3, out)
    sums = {k: load(os.path.join(out, k + ".txt")) for k in ARR}
    for k in range(3):
        d = os.path.join(out, f"#{k+1}")
        rec = {f: load(os.path.join(d, f + ".txt"))[0] for f in ("profile", "efpa", "atmSigma", "LD", *ONE)}
        af = open(os.path.join(d, "atmfile.txt")).read().strip()
        h, w = profile(af, cols, npos, var == "D_Earth", int(rec["profile"]), rec["atmSigma"], km)
        from scipy.interpolate import interp1d
        p = mkp(); p.density_int = interp1d(h, w, kind="linear", fill_value=0.0, bounds_error=False)
        x = vehicle(p)
        x.setInitialState(*st[:5], rec["efpa"], *st[6:])
        x.LD = rec["LD"]; x.CL = x.LD * x.CD
        getattr(x, name)(*((ts, tx, dt, T) if var.startswith("D") else (ts, dt, T))); R.step()
        ctx = f"{body} {name} run {k+1}: {os.path.basename(af)} {rec}"
        for f, a in (("terminal_apoapsis", "terminal_apoapsis"), ("terminal_periapsis", "terminal_periapsis"), ("apoapsis_error", "apoapsis_perc_error"), ("periapsis_raise_DV", "periapsis_raise_DV"), ("apoapsis_raise_DV", "apoapsis_raise_DV")):
            R.near(rec[f], getattr(x, a), "replayed-" + f, rtol=1e-4, atol=1e-2, ctx=ctx)
        q, t = np.asarray(x.q_stag_total_full), np.asarray(x.t_min_full) * 60
        load_ = np.sum(0.5 * (q[1:] + q[:-1]) * np.diff(t))
        for f, want in (("acc_net_g_max_arr", np.max(x.acc_net_g_full)), ("q_stag_max_arr", np.max(q)), ("terminal_apoapsis_arr", x.terminal_apoapsis), ("terminal_periapsis_arr", x.terminal_periapsis),
                        ("periapsis_raise_DV_arr", x.periapsis_raise_DV), ("apoapsis_raise_DV_arr", x.apoapsis_raise_DV)):
            R.near(sums[f][k], want, "replayed-summary", rtol=1e-4, atol=1e-2 if "arr" in f and "max" not in f else 0.0, ctx=lambda: f"{ctx} {f}")
        hm = sums["heatload_max_arr"][k]
        opts = [st[7] + load_] if var not in ("2", "D2") else [load_ / 1e3, (st[7] + load_) / 1e3]
        R.ok(any(abs(hm - o) <= 1e-4 * abs(o) for o in opts), "replayed-summary", lambda: f"{ctx} peak heat load {hm} expected {opts}")
        R.outcome(var, k, round(float(x.terminal_apoapsis), 2)); R.state(var, "real", s, k)
    shutil.rmtree(D)
    R.sample = dict(case=c, runs=3, apoapsis=[float(a) for a in sums["terminal_apoapsis_arr"]])
