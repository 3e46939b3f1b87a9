"""C26: plots and stand-in vehicles. Every sequence of flights, plots and stand-in vehicles up to the bound on the real objects; each plot must draw the history (or atmosphere) that is current, pair by pair and in
the units of its labels, and must leave vehicle and planet as they were."""
import itertools, copy
import numpy as np
from . import ref
PID, LEVEL = "C26", "model_checking"
RULE = ("every sequence of up to 3 (thorough: 4) operations from {flight A, flight B (other front end and bank), flight as helper (leaves the history alone), entry plots, dynamic-pressure plot, atmosphere plots, stand-in vehicle "
        "with another density, flight of the stand-in} on two bodies; all bodies x altitude ranges and steps for the atmosphere plots; distinct = sequences and plots")
ASSUME = ["figures are inspected through matplotlib's Agg backend, no window is opened", "entry plots are drawn after at least one flight"]
CHUNK = 4
OPS = "ABhpqacf"


def cases(tier):
    out = [dict(kind="atm", body=b) for b in ref.BODIES]
    n = 3 if tier == "quick" else 4
    for b in ("MARS", "TITAN"):
        for s0 in ("A", "B"):
            for o in OPS:
                out.append(dict(kind="seq", body=b, start=s0 + o, depth=n))
    return out


class Figures:
    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        self.plt, self.old, self.rc = plt, (plt.show, plt.savefig), dict(matplotlib.rcParams)
        plt.show = plt.savefig = lambda *a, **k: None
        plt.close("all")
        return self

    def curves(self):
        out = []
        for n in self.plt.get_fignums():
            for ax in self.plt.figure(n).axes:
                for l in ax.lines:
                    out.append((ax.get_xlabel(), ax.get_ylabel(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
        self.plt.close("all")
        return out

    def __exit__(self, *a):
        import matplotlib
        self.plt.show, self.plt.savefig = self.old
        self.plt.close("all")
        matplotlib.rcParams.update(self.rc)


def run(c, R):
    return globals()["run_" + c["kind"]](c, R)


def match(R, curves, want, ctx):
    """want: list of (x keyword, y keyword, x, y); each must be drawn on the axes with those labels"""
    for kx, ky, x, y in want:
        got = [g for g in curves if kx.lower() in g[0].lower() and ky.lower() in g[1].lower()]
        if not R.ok(len(got) >= 1, "plot-missing", lambda: f"{ctx} {kx}/{ky}: axes {[g[:2] for g in curves]}"):
            continue
        R.near(got[0][2], x, "plot-x", rtol=1e-9, ctx=lambda: f"{ctx} {kx}/{ky}")
        R.near(got[0][3], y, "plot-y", rtol=1e-9, ctx=lambda: f"{ctx} {kx}/{ky}")


def run_atm(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    with Figures() as F:
        for args in ((), (0.0, 5000.0), (2.0e4, 2000.0), dict(dh=p.h_thres / 3.5), dict(h0=-100.0, dh=1.0e4)):
            if isinstance(args, dict):
                p.checkAtmProfiles(**args); h0, dh = args.get("h0", 0.0), args["dh"]
            else:
                p.checkAtmProfiles(*args); h0, dh = (list(args) + [0.0, 1000.0])[:2] if args else (0.0, 1000.0)
            R.step()
            h = np.linspace(h0, p.h_thres, int(p.h_thres / dh))
            one = lambda f: np.concatenate([np.asarray(f(np.array([x])), float) for x in h])
            match(R, F.curves(), [("temperature", "altitude, km", one(p.tempvectorized), h / 1e3), ("pressure, kpa", "altitude, km", one(p.presvectorized) / 1e3, h / 1e3),
                                  ("density", "altitude, km", one(p.densityvectorized), h / 1e3), ("speed of sound", "altitude, km", one(p.avectorized), h / 1e3)], f"{b} {args}")
            R.state(b, str(args)); R.outcome(b, len(h))
    R.sample = dict(case=c)


HIST = ("t_minc", "h_kmc", "v_kmsc", "acc_net_g", "q_stag_total", "dyn_pres_atm", "tc", "rc", "vc", "gammac", "heatload")


def snap(x):
    out = {n: np.array(getattr(x, n), float) for n in HIST if hasattr(x, n)}
    for n in ("h0_km", "gamma0_deg", "v0_kms", "A", "mass", "RN"):
        if hasattr(x, n):
            out[n] = np.array(getattr(x, n), float)
    h = np.linspace(0, x.planetObj.h_thres, 9)
    out["rho"] = np.array([float(np.asarray(x.planetObj.density(v))) for v in h])
    return out


def same(R, a, b, sig, ctx):
    for n in a:
        R.ok(n in b and a[n].shape == b[n].shape and np.array_equal(a[n], b[n], equal_nan=True), sig, lambda: f"{ctx}: {n}")


def run_seq(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    H0, V0, GA = ref.VEH[b][6:9]
    with Figures() as F:
        for tail in itertools.product(OPS, repeat=c["depth"] - 2):
            s = c["start"] + "".join(tail)
            x = ref.mk_vehicle(p, phi=10.0, gamma=GA)
            clone = None
            for i, o in enumerate(s):
                ctx = f"{b} {s} step {i}"
                before = snap(x)
                if o == "A":
                    x.propogateEntry(300.0, 5.0, 20.0)
                elif o == "B":
                    x.propogateEntry2(420.0, 6.0, -50.0)
                elif o == "h":
                    x.propogateEntry_util(H0 - 1.0, 0.0, 5.0, V0, GA, 80.0, 0.0, 0.0, 200.0, 5.0, 0.0, p.density_int)
                    same(R, before, snap(x), "helper-changes-vehicle", ctx)
                elif o == "p":
                    x.makeBasicEntryPlots()
                    match(R, F.curves(), [("time, min", "altitude, km", x.tc / 60, (x.rc - p.RP) / 1e3), ("time, min", "velocity", x.tc / 60, x.vc / 1e3),
                                          ("time, min", "deceleration", x.tc / 60, x.acc_net_g), ("time, min", "heat-rate", x.tc / 60, x.q_stag_total)], ctx)
                    same(R, before, snap(x), "plot-changes-vehicle", ctx)
                elif o == "q":
                    x.createQPlot(240.0, 4.0, 35.0)
                    y = ref.mk_vehicle(p, phi=10.0, gamma=GA); y.propogateEntry(240.0, 4.0, 35.0)
                    match(R, F.curves(), [("altitude, m", "dynamic pressure, pa", y.rc - p.RP, y.dyn_pres_atm * 1.01325e5)], ctx)
                    same(R, snap(y), snap(x), "q-plot-flight", ctx)
                elif o == "a":
                    p.checkAtmProfiles(0.0, p.h_thres / 10.0); F.curves()
                    same(R, before, snap(x), "plot-changes-vehicle", ctx)
                elif o == "c":
                    half = lambda h: 0.5 * np.asarray(p0(h))
                    p0 = x.planetObj.density_int
                    clone = x.dummyVehicle(half)
                    same(R, before, snap(x), "stand-in-changes-vehicle", ctx)
                    h = np.linspace(1e3, p.h_thres * 0.9, 7)
                    R.near([float(np.asarray(clone.planetObj.density_int(v))) for v in h], [0.5 * float(np.asarray(p.density_int(v))) for v in h], "stand-in-density", rtol=1e-12, ctx=ctx)
                    cs = snap(clone)
                    same(R, {k: v for k, v in before.items() if k != "rho"}, cs, "stand-in-copy", ctx)
                    R.ok(clone is not x and clone.planetObj is not x.planetObj, "stand-in-shares-planet", ctx)
                elif o == "f" and clone is not None:
                    clone.setInitialState(H0, 0.0, 5.0, V0, 80.0, GA, 0.0, 0.0)
                    clone.propogateEntry(200.0, 5.0, 0.0)
                    same(R, before, snap(x), "stand-in-flight-changes-vehicle", ctx)
                R.step()
            R.state(b, s); R.outcome(b, s[-1], len(x.tc))
            if len(R.problems) > 20:
                return
    R.sample = dict(case=c, last=s)
