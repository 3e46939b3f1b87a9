"""C17: the measured-density model. All measurement histories over small altitude and dispersion alphabets (every order, every outlier position) against a reference model; predictions and guided flights
are checked to use that model and nothing else."""
import itertools
import numpy as np
from . import ref, guided
PID, LEVEL = "C17", "exploration"
RULE = ("full product body x every altitude history (all subsets of an altitude grid in descending order, all permutations of the short ones; up to hundreds of measurements, monotone, pulled up and oscillating) x every assignment of density factors to the measurements "
        "x lower limit x number of extrapolation points; queried at every measurement, between them, at and between the extrapolation points, above and below the range; predictors with the true "
        "atmosphere replaced; the functions handed to the predictor in guided flights; the planet's own and user-set boundaries; distinct = model values")
ASSUME = ["at least two measurements at distinct altitudes, at least 1 km apart from the interface and the surface", "lower limit more than 1 km below the lowest measurement", "positive densities"]
CHUNK = 2
GRID = [0.92, 0.8, 0.66, 0.55, 0.47, 0.38]       # of h_skip
FAC = [0.6, 1.0, 1.7]


def cases(tier):
    out = []
    for b in ref.BODIES:
        for n in (2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
            for k in range(1 if n < 4 else 3):
                out.append(dict(kind="model", body=b, n=n, part=k, of=1 if n < 4 else 3, full=tier == "thorough"))
    for b in ref.BODIES:
        out.append(dict(kind="long", body=b, full=tier == "thorough"))
        out.append(dict(kind="long", body=b, full=tier == "thorough", user=True))
    for b in ("VENUS", "MARS", "TITAN", "NEPTUNE", "EARTH", "URANUS"):
        for var in (1, 2):
            for k in (0, 1):
                out.append(dict(kind="predict", body=b, var=var, drag=k))
    for b, g, d in (("VENUS", -7.0, 0), ("MARS", -10.0, 0), ("VENUS", -5.5, 1), ("MARS", -9.4, 1), ("EARTH", -4.9, 1)):
        for var in (1, 2):
            out.append(dict(kind="guided", body=b, g=g, var=var, drag=d))
    return out


def scale_height(A, h_skip, h):
    hh = np.linspace(0, h_skip, int(h_skip / 1000.0))
    i = int(h / 1000.0)
    d = A.dens(hh)
    d = np.where((hh >= A.h.min()) & (hh <= A.h.max()), A.fd(hh), 0.0)
    integ = np.sum(0.5 * (d[i:][1:] + d[i:][:-1]) * np.diff(hh[i:]))
    return integ / (float(A.dens(h)) - float(A.dens(h_skip)))


def model(A, h_skip, hs, ds, low_km, npts):
    """reference nodes (ascending altitude, m) and densities"""
    hs, ds = np.asarray(hs) * 1e3, np.asarray(ds)
    i = int(np.argmin(hs))
    H = scale_height(A, h_skip, hs[i])
    hl = np.linspace(hs[i] - 1000.0, low_km * 1e3, npts)
    dl = ds[i] * np.exp((hs[i] - hl) / H)
    h, d = np.concatenate([hs, hl]), np.concatenate([ds, dl])
    o = np.argsort(h)
    return h[o], d[o], hl, dl, H


def check(R, A, v, f, mn, hs, ds, low, npts, ctx):
    h, d, hl, dl, H = model(A, v.planetObj.h_skip, hs, ds, low, npts)
    m = np.asarray(hs) * 1e3
    R.near(mn, m.min(), "lowest-measurement", rtol=1e-12, ctx=ctx)
    R.near(f(m), np.asarray(ds), "measurement-reproduced", rtol=1e-9, ctx=ctx)
    R.near(float(f(float(m[0]))), ds[0], "measurement-reproduced", rtol=1e-9, ctx=ctx)
    # below the lowest measurement: exponential with the local scale height, continuous
    R.near(f(hl[hl > 0]), dl[hl > 0], "exponential-extrapolation", rtol=1e-6, ctx=lambda: f"{ctx} scale height {H}")
    R.near(float(f(m.min() - 1e-3)), ds[int(np.argmin(m))], "continuous", rtol=1e-3, ctx=ctx)
    q = np.concatenate([(h[1:] + h[:-1]) / 2, 0.9 * h[1:] + 0.1 * h[:-1]])
    R.near(f(q), np.interp(q, h, d), "between", rtol=1e-6, ctx=ctx)
    up = h[-1] + np.array([1e-3, 1.0, 1e4, 1e6])
    R.near(f(up), np.full(4, d.min()), "above-range", rtol=1e-6, ctx=ctx)
    dn = h[0] - np.array([1e-3, 1.0, 500.0])
    R.near(f(dn), np.full(3, d.max()), "below-range", rtol=1e-6, ctx=ctx)
    R.outcome(round(float(d.min()), 14), round(float(d.max()), 12), npts)


def run(c, R):
    return globals()["run_" + c["kind"]](c, R)


def run_model(c, R):
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b)
    v = ref.mk_vehicle(p)
    n = c["n"]
    hists = []
    for s in itertools.combinations(GRID, n):
        hists.append(s)
        if n <= 3:
            hists += [x for x in itertools.permutations(s) if x != s]
        else:
            hists += [s[::-1], s[1:] + s[:1], s[:1] + s[1:][::-1]]
    hists = hists[c["part"]::c["of"]]
    lows = [(0.1, 11), (0.25, 2)] + ([(0.02, 101), (0.3, 3)] if n <= 3 or c["full"] else [])
    facs = list(itertools.product(FAC, repeat=n)) if n <= 4 else [tuple(FAC[(i * a + k) % 3] for i in range(n)) for a in (0, 1, 2) for k in range(3)]
    if not c["full"]:
        facs = facs[::2] if n == 4 else facs
    top = p.h_skip / 1e3
    for hh in hists:
        hs = [round(x * top, 3) for x in hh]
        base = A.dens(np.array(hs) * 1e3)
        for j, fa in enumerate(facs):
            low, npts = lows[j % len(lows)]
            ds = list(np.maximum(base, 1e-18) * np.array(fa))
            keep = (list(hs), list(ds))
            a, q = np.array([0.0] + hs), np.array([0.0] + ds)
            f, mn = v.createDensityMeasuredFunction(a, q, low * top, npts); R.step()
            check(R, A, v, f, mn, hs, ds, low * top, npts, f"{b} h={hs} factors={fa} low={low*top} n={npts}")
            R.ok(np.array_equal(a, [0.0] + keep[0]) and np.array_equal(q, [0.0] + keep[1]), "measurements-changed", b)
            R.state(b, hh, fa, low, npts)
            if len(R.problems) > 8:
                return
    R.sample = dict(case=c, histories=len(hists), last=hs)


def run_long(c, R):
    """long descents: tens to hundreds of measurements, monotone, with a pull-up, and oscillating"""
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b); v = ref.mk_vehicle(p)
    if c.get("user"):
        ref.user_thresholds(p)                   # after the vehicle was built
    top = p.h_skip / 1e3
    for n in (8, 40, 51, 120) + ((257, 500) if c["full"] else ()):
        x = np.linspace(0.93, 0.37, n)
        shapes = dict(descent=x, ascent=x[::-1], pullup=np.concatenate([x[::2], x[1::2][::-1]]), wave=0.65 + 0.28 * np.cos(np.arange(n) * 3.7 * np.pi / n) - 1e-4 * np.arange(n) / n,
                      lowfirst=np.concatenate([x[-1:], x[:-1]]))
        for nm, s in shapes.items():
            hs = np.round(s * top, 6)
            if len(np.unique(hs)) < n:
                continue
            for k, (low, npts) in enumerate(((0.1, 11), (0.25, 2), (0.02, 201))):
                ds = np.maximum(A.dens(hs * 1e3), 1e-18) * (1 + 0.25 * np.cos(np.arange(n) * (1.3 + k)))
                f, mn = v.createDensityMeasuredFunction(np.concatenate([[0.0], hs]), np.concatenate([[0.0], ds]), low * top, npts); R.step()
                check(R, A, v, f, mn, hs, ds, low * top, npts, f"{b} {n} measurements, {nm}, low={low*top} n={npts}")
                R.state(b, n, nm, low, npts, "user" in c)
    R.sample = dict(case=c, last=n)


def run_predict(c, R):
    """the prediction is the flight through the measured model, whatever the true atmosphere is"""
    from . import c13, c14
    b, var, drag = c["body"], c["var"], c["drag"]
    sfx = "2" if var == 2 else ""
    A = ref.Atmos(b)
    top = ref.CONST[b][10]
    m, be, ld, ar, al, rn, h0, v0, g0 = ref.VEH[b]
    hs = [x * top for x in GRID[:5]]
    for fa in ([1.0] * 5, [1.4, 0.8, 1.2, 0.9, 1.1], [0.5] * 5):
        ds = list(np.maximum(A.dens(np.array(hs) * 1e3), 1e-18) * np.array(fa))
        p = ref.mk_planet(b)
        v = ref.mk_vehicle(p, LD=0.0 if drag else ld)
        ratio = 4.0
        v.setDragModulationVehicleParams(be, ratio)
        f, mn = v.createDensityMeasuredFunction(np.array([0.0] + hs), np.array([0.0] + ds), 0.1 * top, 51)
        bound = (0.85 if fa[0] == 1.4 else 1.0) * ref.CONST[b][10] * 1e3      # or a boundary the user set after the vehicle was built
        for st in ((0.6 * top, 10.0, -20.0, 0.85 * v0, 2.0, 130.0), (0.5 * top, 200.0, 40.0, 0.8 * v0, -3.0, 20.0), (0.7 * top, -5.0, 5.0, 0.9 * v0, 0.5 * g0, 300.0)):
            h, th, ph, vv, ga, ps = st
            T, dt = 1500.0, 2.0
            bank = 0.0
            nm = ("predictApoapsisAltitudeKm_afterJettision" if drag else "predictApoapsisAltitudeKm_withLiftUp") + sfx
            got = []
            for true in (None, lambda x: 3.0 * A.fd(x), lambda x: 0.0 * np.asarray(x, float)):
                p2 = ref.mk_planet(b)
                if true is not None:
                    p2.density_int = true
                w = ref.mk_vehicle(p2, LD=0.0 if drag else ld); w.setDragModulationVehicleParams(be, ratio)
                p2.h_skip = bound
                got.append(getattr(w, nm)(h, th, ph, vv, ga, ps, 3.0, 4.0, T, dt, bank, f)); R.step()
            ctx = f"{b} {nm} from {st} factors {fa}"
            R.near(got[1:], [got[0]] * 2, "prediction-uses-true-atmosphere", rtol=1e-9, atol=1e-6, ctx=ctx)
            p3 = ref.mk_planet(b); p3.density_int = f
            x = ref.mk_vehicle(p3, LD=0.0 if drag else ld, beta=be * (ratio if drag else 1), h0=h, theta=th, phi=ph, v0=vv, psi=ps, gamma=ga, drange=3.0, heat=4.0)
            p3.h_skip = bound
            getattr(x, "propogateEntry" + sfx)(T, dt, bank)
            X, V = ref.inertial(p3.OMEGA, x.rc[-1], x.vc[-1], x.gammac[-1], x.thetac[-1], x.phic[-1], x.psic[-1])
            K = ref.kepler(p3.GM, X, V)
            want = (K["ra"] - p3.RP) / 1e3
            if abs(K["E"]) > 1e-3 * p3.GM / K["r"]:
                R.near(got[0], want, "prediction", rtol=1e-4 * (1 + K["e"] / max(1e-3, abs(1 - K["e"]))), atol=1e-3, ctx=ctx)
            R.state(b, nm, tuple(fa), st); R.outcome(b, nm, round(float(got[0]), 2))
    R.sample = dict(case=c, last=[float(g) for g in got])


def run_guided(c, R):
    """every prediction of a guided flight is handed a function that reproduces the measurements taken so far in the descent"""
    from AMAT.vehicle import Vehicle
    from . import c13, c14
    b, var, drag = c["body"], c["var"], c["drag"]
    got = []

    class S(Vehicle):
        def _p(self, a):
            got.append((a, np.array(self.h_step_array, float), np.array(self.density_mes_array, float)))
            return -1e4

        def predictApoapsisAltitudeKm_withLiftUp(self, *a): return self._p(a)
        def predictApoapsisAltitudeKm_withLiftUp2(self, *a): return self._p(a)
        def predictApoapsisAltitudeKm_afterJettision(self, *a): return self._p(a)
        def predictApoapsisAltitudeKm_afterJettision2(self, *a): return self._p(a)
    p = c14.planet(b) if drag else ref.mk_planet(b)
    A = ref.Atmos(b)
    if drag:
        v, cfg = c14.mk(b, p, dict(c), 1, cls=S)
        c14.fly(v, dict(c, te=1.0, tx=2.0, dt=0.5), 1200.0)
        low, npts, thr = c14.PRM[b][5][1:4]
        beta = c14.BETAS[b][0][0]; sl = 0.0
    else:
        v, cfg = c13.mk(b, p, dict(c, rate=20.0), 1, cls=S)
        getattr(v, "propogateGuidedEntry" + ("2" if var == 2 else ""))(2.0, 0.5, 1200.0)
        low, npts, thr = c13.PRM[b][0][3:6]
        beta, sl = ref.VEH[b][1], ref.VEH[b][2]
    if not got:
        return
    H = guided.history(v, "_full"); segs = guided.segments(H["t_min"])
    Y = guided.stateY(p, H)
    a, hs, ds = got[0]
    # the measurements: altitude at the start of each cycle, density from the drag at its end and the mean speed
    n = len(hs) - 1
    wh = [H["h_km"][segs[k][0]] for k in range(1, n + 1)]
    wd = []
    for k in range(1, n + 1):
        i, j = segs[k]
        wd.append(2 * beta * H["acc_net_g"][j - 1] / np.hypot(1, sl) * ref.G0 / (0.5 * (Y[3, i] + Y[3, j - 1]))**2)
    R.near(hs[1:], wh, "measured-altitudes", rtol=1e-9, ctx=b)
    R.near(ds[1:], wd, "measured-densities", rtol=1e-6, atol=1e-18, ctx=b)
    mn = v.minAlt if hasattr(v, "minAlt") else min(wh) * 1e3
    for a, _, _ in got[:1] + got[-1:]:
        f = a[-1]
        if callable(f):
            R.step(); R.state(b, var, drag, n)
            check(R, A, v, f, min(wh) * 1e3, np.array(wh), np.array(wd), low, npts, f"{b} guided {'drag' if drag else 'lift'} {var}")
    R.sample = dict(case=c, measurements=n, predictions=len(got))
