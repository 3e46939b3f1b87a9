"""C15: history independence. A world (planet, two vehicles sharing it) is explored as a transition system: from every reachable world state (digest of all attributes of both
vehicles and the planet) every operation is applied to a copy, and its answer must equal the answer of the same operation on a freshly built world."""
import copy, hashlib
import numpy as np
from . import ref
PID, LEVEL = "C15", "model_checking"
RULE = ("breadth-first search over operation sequences (propagations of three kinds, what-if helpers, classifications, corridor searches, multi-radius heating, guided runs, look-ups, second "
        "vehicle) to depth 3 (quick: 2 + every operation after the deepest states of a reduced set), worlds merged by attribute digest; in every state every operation is compared with a fresh world; "
        "states = world digests, transitions = operations")
ASSUME = ["guided runs end with the vehicle at the end of its flight (documented): the driver sets the entry state again after one", "answers compared to 1e-9 relative"]
CHUNK = 1
CASE_LIMIT = 400
CONF = ["mass", "beta", "LD", "A", "alpha", "RN", "CD", "CL", "h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0", "tol", "beta1", "betaRatio",
        "target_peri_km", "target_apo_km", "target_apo_km_tol", "maxRollRate", "Abar", "mbar", "vehicleID"]
# body: (T, dt), escape gamma, steep gamma, overshoot bracket, undershoot bracket, target apo, DM: (mass, beta1, ratio, A, RN, v0, h0, gamma, bracket)
W = {
 "VENUS":   dict(T=900.0, dt=4.0, esc=-3.0, steep=-25.0, os=(-12.0, -5.5), us=(-14.0, -5.5), tgt=4000.0, dm=(64.4, 38.0, 7.5, 0.8, 0.2, 11.0, 150.0, -5.4, (-8.0, -4.0)), eg=((60.0, 3.0, 7.0, 60.0, 51, -200.0), (400.0, 2000.0, 50.0)), ep=(2.0, 20.0, 51, -300.0), to=(200.0, 2000.0, 20.0)),
 "MARS":    dict(T=900.0, dt=4.0, esc=-4.0, steep=-30.0, os=(-20.0, -8.0), us=(-25.0, -8.0), tgt=2000.0, dm=(68.2, 20.0, 7.5, 1.8, 0.4, 5.4, 120.0, -9.2, (-12.0, -7.0)), eg=((60.0, 3.0, 3.0, 20.0, 51, -200.0), (300.0, 2000.0, 50.0)), ep=(2.0, 15.0, 51, -200.0), to=(200.0, 2000.0, 20.0)),
 "EARTH":   dict(T=900.0, dt=4.0, esc=-2.0, steep=-25.0, os=(-12.0, -4.0), us=(-14.0, -4.0), tgt=1000.0, dm=(26.0, 66.4, 4.72, 0.2, 0.06, 9.8, 120.0, -4.9, (-7.0, -3.0)), eg=((60.0, 3.0, 7.0, 50.0, 51, -200.0), (300.0, 2000.0, 50.0)), ep=(5.0, 50.0, 51, -200.0), to=(180.0, 1760.0, 50.0)),
 "TITAN":   dict(T=2500.0, dt=8.0, esc=-20.0, steep=-55.0, os=(-50.0, -28.0), us=(-50.0, -28.0), tgt=1700.0, dm=(2000.0, 50.0, 5.0, 12.0, 1.0, 6.0, 1000.0, -34.0, (-45.0, -28.0)), eg=((56.0, 54.0, 1.0, 100.0, 51, -1000.0), (1700.0, 1700.0, 20.0)), ep=(1.0, 50.0, 51, -1000.0), to=(1700.0, 1700.0, 50.0)),
 "NEPTUNE": dict(T=1500.0, dt=6.0, esc=-5.0, steep=-25.0, os=(-20.0, -9.0), us=(-20.0, -9.0), tgt=4e5, dm=(2000.0, 100.0, 5.0, 12.0, 1.0, 28.0, 1000.0, -11.5, (-16.0, -8.0)), eg=((75.0, 3.0, 15.0, 120.0, 51, -500.0), (4000.0, 400e3, 10e3)), ep=(15.0, 120.0, 51, -500.0), to=(4000.0, 4e5, 1e4)),
}
HIST = ["tc", "rc", "thetac", "phic", "vc", "psic", "gammac", "drangec", "t_minc", "h_kmc", "v_kmsc", "theta_degc", "phi_degc", "psi_degc", "gamma_degc", "drange_kmc",
        "acc_net_g", "acc_drag_g", "dyn_pres_atm", "stag_pres_atm", "q_stag_con", "q_stag_rad", "q_stag_total", "heatload", "exitflag"]


class World:
    def __init__(self, b):
        from AMAT.vehicle import Vehicle
        w = W[b]
        self.b, self.w = b, w
        self.p = ref.mk_planet(b)
        self.v = ref.mk_vehicle(self.p, theta=-70.0, phi=35.0, psi=120.0, drange=12.0, heat=55.0, tol={"MARS": 2e-8, "TITAN": 3e-5}.get(b, 1e-6))
        self.v.setMaxRollRate(20.0); self.v.setEquilibriumGlideParams(*w["eg"][0]); self.v.setTargetOrbitParams(*w["eg"][1])
        self.v.setDragModulationVehicleParams(45.0, 6.0)
        m, b1, ratio, A, RN, v0, h0, g, _ = w["dm"]
        self.u = Vehicle("skirt", m, b1, 0.0, A, 0.0, RN, self.p)
        self.u.setSolverParams(4e-8 if b == "EARTH" else 1e-6); self.u.setDragModulationVehicleParams(b1, ratio); self.u.setDragEntryPhaseParams(*w["ep"]); self.u.setTargetOrbitParams(*w["to"])
        self.reset_u()
        self.hn = np.array(ref.Atmos(b).h[::7], float)

    def reset_v(self, gamma=None):
        v = ref.VEH[self.b]
        self.v.setInitialState(v[6], -70.0, 35.0, v[7], 120.0, v[8] if gamma is None else gamma, 12.0, 55.0)

    def reset_u(self):
        m, b1, ratio, A, RN, v0, h0, g, _ = self.w["dm"]
        self.u.setInitialState(h0, 200.0, -50.0, v0, -60.0, g, 3.0, 7.0)

    def conf(self):
        return [{k: o.__dict__[k] for k in CONF if k in o.__dict__} for o in (self.v, self.u)]


def hist(v):
    return {k: np.array(getattr(v, k), float) for k in HIST if hasattr(v, k)}


def _prop(which, var, bank, gamma=None):
    def f(w):
        v = getattr(w, which)
        if gamma:
            w.reset_v(w.w[gamma])
        getattr(v, "propogateEntry" + ("2" if var == 2 else ""))(w.w["T"], w.w["dt"], bank)
        r = hist(v)
        if gamma:
            w.reset_v()
        return r
    return f


def _find(name, key, tol):
    def f(w):
        v = w.u if name.endswith(("D", "D2")) and key == "dm" else w.v
        br = w.w["dm"][-1] if key == "dm" else w.w[key]
        return getattr(v, name)(w.w["T"], w.w["dt"], br[0], br[1], tol, w.w["tgt"])
    return f


def _tcw(w):
    return w.v.computeTCW(w.w["T"], w.w["dt"], *w.w["os"], *w.w["us"], 1.0, 1.0, w.w["tgt"])


def _tcwd2(w):
    return w.u.computeTCWD2(w.w["T"], w.w["dt"], *w.w["dm"][-1], 0.5, w.w["tgt"])


def _rn(w):
    r = np.linspace(w.p.RP + 0.9 * w.p.h_skip, w.p.RP + 0.4 * w.p.h_skip, 12)
    out = w.v.computeHeatingForMultipleRN(np.linspace(0, 60, 12), r, np.linspace(w.v.v0_kms * 1e3, 0.7e3 * w.v.v0_kms, 12), np.array([0.3, 2.0, 1.1]))
    return list(out) if isinstance(out, (tuple, list)) else out


def _dens(w):
    f = w.p.density_int
    return lambda h: 1.3 * f(h)


def _util(name, bank=40.0):
    def f(w):
        o = w.u if "D" in name.split("util")[-1] or "Jett" in name else w.v
        v = ref.VEH[w.b]
        a = (v[6] * 0.95, 12.0, -8.0, v[7] * 0.99, v[8] * 1.05, 33.0, 1.0, 9.0, w.w["T"], w.w["dt"], bank, _dens(w))
        r = getattr(o, name)(*a)
        return [np.array(x, float) for x in r] if isinstance(r, tuple) else float(r)
    return f


def _verdict(name, tgt):
    def f(w):
        a = (w.w["T"], w.w["dt"], 80.0)
        return getattr(w.v, name)(*(a + ((w.w["tgt"],) if tgt else ())))
    return f


def _guided(var):
    def f(w):
        w.reset_v()
        getattr(w.v, "propogateGuidedEntry" + ("2" if var == 2 else ""))(4.0, 2.0, 1200.0)
        r = {k: np.array(getattr(w.v, k), float) for k in ("t_min_full", "h_km_full", "v_kms_full", "psi_deg_full", "gamma_deg_full", "heatload_full", "acc_net_g_full", "delta_deg_array", "terminal_apoapsis",
                                                             "terminal_periapsis", "apoapsis_perc_error", "periapsis_raise_DV", "apoapsis_raise_DV")}
        w.reset_v()
        return r
    return f


def _guidedD(var):
    def f(w):
        w.reset_u()
        beta, cd = w.u.beta, w.u.CD
        getattr(w.u, "propogateGuidedEntryD" + ("2" if var == 2 else ""))(4.0, 4.0, 2.0, 1200.0)
        r = {k: np.array(getattr(w.u, k), float) for k in ("t_min_full", "h_km_full", "v_kms_full", "psi_deg_full", "gamma_deg_full", "heatload_full", "acc_net_g_full", "terminal_apoapsis",
                                                             "terminal_periapsis", "apoapsis_perc_error", "periapsis_raise_DV", "apoapsis_raise_DV")}
        w.reset_u()
        w.u.beta, w.u.CD = beta, cd      # the flight ends with the skirt gone: put it back
        return r
    return f


def _lookup(w):
    p, h = w.p, w.hn
    r = p.RP + h
    return [[float(p.density(x)) for x in h], np.array(p.densityvectorized(h), float), np.array(p.temperaturevectorized(r), float),
            np.array(p.pressurevectorized(r), float), np.array(p.sonicvectorized(r), float), np.array(p.rhovectorized(r), float), float(p.rho(r[3], 0.1, 0.2)), float(p.scaleHeight(0.3 * p.h_skip, p.density_int))]


def _nofly(w):
    v = w.v
    r0, v0 = w.p.RP + 0.5 * w.p.h_skip, v.v0_kms * 1e3
    f, mn = v.createDensityMeasuredFunction(np.array([0.0, 0.7, 0.5, 0.4]) * w.p.h_skip / 1e3, np.array([0.0, 1e-9, 1e-7, 1e-6]), 0.1 * w.p.h_skip / 1e3, 11)
    ra, va = r0 * np.ones(3), v0 * np.array([0.5, 0.9, 1.0])
    return [v.qStagConvective(ra, va), v.qStagRadiative(ra, va), v.qStagTotal(ra, va), v.EOM2(0.0, np.array([1.01, 0.1, 0.2, 0.9, 0.3, -0.1, 0.0]), 0.4), v.L(r0, 0, 0, v0), v.D(r0, 0, 0, v0),
            v.compute_ApoapsisAltitudeKm(r0, v0 * 0.7, 0.1, 0.2, 0.3, 0.4), v.compute_PeriapsisAltitudeKm(r0, v0 * 0.7, 0.1, 0.2, 0.3, 0.4), v.compute_periapsis_raise_DV(100.0, 3000.0, 500.0),
            v.compute_apoapsis_raise_DV(400.0, 3000.0, 2500.0), v.psuedoController(120.0, 30.0, 2.0), np.array([f(x) for x in np.linspace(0.0, w.p.h_skip, 15)], float), float(mn)]


def _fresh_vehicle(w):
    """a third vehicle built later on the same planet flies the standard entry"""
    v = ref.mk_vehicle(w.p, beta=77.0, LD=0.1, RN=0.4, theta=5.0, phi=-20.0, psi=250.0)
    v.propogateEntry2(w.w["T"], w.w["dt"], 0.0)
    return hist(v)


OPS = {
 "prop": _prop("v", 1, 0.0), "prop2-bank": _prop("v", 2, 60.0), "prop-escape": _prop("v", 1, 0.0, "esc"), "prop-steep-down": _prop("v", 1, 180.0, "steep"), "prop2-steep": _prop("v", 2, 180.0, "steep"),
 "captured": _verdict("isCaptured", False), "hits": _verdict("hitsTargetApoapsis", True), "hits2": _verdict("hitsTargetApoapsis2", True),
 "over": _find("findOverShootLimit", "os", 1.0), "over2": _find("findOverShootLimit2", "os", 1.0), "under": _find("findUnderShootLimit", "us", 1.0), "under2": _find("findUnderShootLimit2", "us", 1.0),
 "under-fail": _find("findUnderShootLimit", "us", 40.0), "overD": _find("findOverShootLimitD", "dm", 0.5), "underD2": _find("findUnderShootLimitD2", "dm", 0.5), "liftD": _find("findOverShootLimitD2", "us", 1.0),
 "tcw": _tcw, "tcwd2": _tcwd2, "rn": _rn, "util": _util("propogateEntry_util"), "util2": _util("propogateEntry_util2"), "utilD": _util("propogateEntry_utilD", 0.0), "utilD2": _util("propogateEntry_utilD2", 0.0),
 "predict": _util("predictApoapsisAltitudeKm_withLiftUp", 0.0), "predict2": _util("predictApoapsisAltitudeKm_withLiftUp2", 0.0), "jettison": _util("predictApoapsisAltitudeKm_afterJettision", 0.0),
 "jettison2": _util("predictApoapsisAltitudeKm_afterJettision2", 0.0), "lookup": _lookup, "nofly": _nofly, "u-prop2": _prop("u", 2, 0.0), "third": _fresh_vehicle,
 "guided2": _guided(2), "guidedD": _guidedD(1), "guided": _guided(1), "guidedD2": _guidedD(2),
}
HEAVY = {"guided", "guided2", "guidedD", "guidedD2", "tcw", "tcwd2"}
CORE = ["prop", "prop2-bank", "prop-steep-down", "hits2", "over", "underD2", "rn", "util2", "jettison", "nofly", "u-prop2", "third"]   # cheap operations used for the third step


def cases(tier):
    bodies = ["VENUS", "MARS"] if tier == "quick" else list(W)
    first = [None] + list(OPS)
    out = []
    for b in bodies:
        for o in first:
            if tier == "quick" and b != "VENUS" and o not in (None, "prop-escape", "underD2", "tcw", "guided2", "guidedD", "rn", "jettison2", "util2"):
                continue
            out.append(dict(body=b, first=o, tier=tier))
    out.sort(key=lambda c: c["first"] not in HEAVY)
    return out


_fresh = {}


def fresh(b, o):
    if (b, o) not in _fresh:
        w = World(b)
        _fresh[(b, o)] = OPS[o](w)
    return _fresh[(b, o)]


def cmp(R, got, want, sig, ctx):
    if isinstance(want, dict):
        for k in want:
            cmp(R, got.get(k), want[k], sig, lambda k=k: f"{ctx()} [{k}]")
    elif isinstance(want, (list, tuple)):
        for i, x in enumerate(want):
            cmp(R, got[i], x, sig, lambda i=i: f"{ctx()} [{i}]")
    elif want is None:
        R.ok(got is None, sig, ctx)
    else:
        a = np.asarray(want, float)
        R.near(got, a, sig, rtol=1e-9, atol=1e-9 * (np.max(np.abs(a[np.isfinite(a)]), initial=0.0)) + 1e-300, ctx=ctx)


def digest(w):
    h = hashlib.blake2b(digest_size=8)
    for o in (w.v, w.u, w.p):
        for k in sorted(o.__dict__):
            x = o.__dict__[k]
            if isinstance(x, np.ndarray):
                h.update(k.encode()); h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x).encode())
            elif isinstance(x, (int, float, str, bool, np.generic)):
                h.update(f"{k}={x!r}".encode())
    return h.hexdigest()


def step(R, b, w, path, o):
    conf, atm = w.conf(), w.p.density_int(w.hn)
    keep = {k: x for k, x in w.p.__dict__.items() if isinstance(x, (int, float, str, bool, np.generic))}
    got = OPS[o](w); R.step()
    ctx = lambda: f"{b}: {o} after {path}"
    cmp(R, got, fresh(b, o), "history-dependence", ctx)
    now = w.conf()
    for a, c, n in zip(conf, now, ("vehicle", "second vehicle")):
        bad = {k: (a[k], c.get(k)) for k in a if not (a[k] == c.get(k))}
        R.ok(not bad, "configuration-changed", lambda: f"{ctx()}: {n} {bad}")
    R.ok(w.v.planetObj is w.p and w.u.planetObj is w.p, "planet-replaced", ctx)
    R.ok(np.array_equal(w.p.density_int(w.hn), atm) and all(w.p.__dict__.get(k) == x for k, x in keep.items()), "planet-changed", ctx)


def run(c, R):
    b, tier = c["body"], c["tier"]
    w = World(b)
    path = []
    if c["first"]:
        step(R, b, w, [], c["first"]); path = [c["first"]]
    else:                                          # depth-0 state: every operation twice in a row
        for o in OPS:
            x = copy.deepcopy(w); step(R, b, x, [], o); step(R, b, x, [o], o); R.state(b, digest(x))
        R.sample = dict(case=c, ops=len(OPS)); return
    seen = {digest(w)}
    frontier = [(w, path)]
    for depth in (2, 3):
        nxt = []
        for s, pth in frontier:
            ops = list(OPS) if depth == 2 else (CORE if tier == "quick" else [o for o in OPS if o not in HEAVY])
            if tier == "quick":
                ops = [o for o in ops if o not in ("guided", "guidedD2", "tcw") or c["first"] in HEAVY and b == "VENUS"]
                if depth == 3 and (len(pth) < 2 or pth[-1] not in ("prop-escape", "rn", "overD", "guided2", "hits")):
                    continue
            for o in ops:
                x = copy.deepcopy(s)
                step(R, b, x, pth, o)
                if len(R.problems) > 8:
                    return
                d = digest(x); R.state(b, d); R.outcome(d)
                if d not in seen:
                    seen.add(d); nxt.append((x, pth + [o]))
        frontier = nxt
    R.sample = dict(case=c, states=len(seen), last=frontier[-1][1] if frontier else path)
