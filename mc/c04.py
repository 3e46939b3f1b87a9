"""C04: every propagated entry in a complete flight grid, judged sample by sample against an independent reference flow (multiple shooting)."""
import numpy as np
from . import ref, traj
PID, LEVEL = "C04", "exploration"
RULE = ("full product body x geometry (latitude/longitude/heading in all quadrants, non-zero downrange) x entry angle (escape, capture, steep) x bank (0,+,-,180) x both "
        "integrator front ends x solver tolerance x output step; every sample interval of every flight is re-integrated by the reference; lifting descents of up to two hours, and durations shorter than or not a multiple of the output step; distinct = sample states")
ASSUME = ["samples up to flight-path angle -85 deg (the heading equation is singular at -90 deg)", "solver error per sample interval below 600 x requested tolerance + 1.5e-5 (scaled)",
          "vehicle enters from at or above the surface with non-zero speed"]
CHUNK = 1


def cdm(M):
    return 1.0 + 0.75 * np.tanh((np.asarray(M) - 6.0) / 4.0)


GEO = [(0.0, 0.0, 0.0, 0.0), (-70.0, 35.0, 120.0, 12.0), (200.0, -55.0, -60.0, 0.0), (100.0, 10.0, 225.0, 3.5)]   # theta, phi, psi, drange
DG = [0.55, 1.0, 1.8]
BANKS = [0.0, 65.0, -100.0, 180.0]
LONG = dict(MARS=3000.3, TITAN=7500.0, URANUS=4000.3, NEPTUNE=7800.0, SATURN=6000.0)


def cases(tier):
    out = []
    for b in ref.BODIES:
        for g in range(len(GEO)):
            for dg in range(len(DG)):
                for bank in (BANKS if tier == "quick" else BANKS + [30.0, 90.0, 150.0, 270.0]):
                    if tier == "quick" and (g + dg + BANKS.index(bank)) % 2:
                        continue
                    out.append(dict(body=b, geo=g, dg=dg, bank=bank, tier=tier))
    for b, T in LONG.items():
        out.insert(0, dict(kind="long", body=b, T=T, geo=1 + ref.BODIES.index(b) % 3, bank=0.0, tier=tier))
    return out


def to_vertical(p, Y, dt, A, ldc, ddc, delta):
    """steepest flight-path angle, degrees, of the reference flow in the output step after the last sample"""
    B = ref.Body(p)
    y, g = Y[:, -1:], [float(Y[5, -1])]
    n = max(2, int(np.ceil(dt / 0.5)))
    for _ in range(n):
        y = ref.flow(B, y, np.array([dt / n]), A.dens, ldc, ddc, delta, max(1, int(np.ceil(dt / n / 0.1))))
        if not np.all(np.isfinite(y)):
            return -90.0
        g.append(float(y[5, 0]))
        if np.degrees(g[-1]) < -87.0:
            break
    return float(np.degrees(min(g)))


def run_long(c, R):
    """lifting descents that stay inside the atmosphere for tens of minutes to hours; durations that are not a multiple of, or shorter than, the output step"""
    b, T = c["body"], c["T"]
    p = ref.mk_planet(b); A = ref.Atmos(b)
    th, ph, ps, dr = GEO[c["geo"]]
    kw = dict(theta=th, phi=ph, psi=ps, drange=dr, gamma=1.3 * ref.VEH[b][8], LD=0.4)
    for variant in (1, 2):
        nm = "propogateEntry" if variant == 1 else "propogateEntry2"
        for dur, dt in ((T, 5.0), (40.0, 7.0), (0.3, 1.0), (3.0, 3.0), (12.34, 0.05), (T, 61.0)):
            v = ref.mk_vehicle(p, tol=1e-9, **kw)
            getattr(v, nm)(dur, dt, c["bank"]); R.step()
            ctx = f"{nm} for {dur} s, dt={dt}"
            n = len(v.tc); Y = traj.states(v)
            if not R.ok(n >= 1 and Y.shape == (7, n), "history-shape", ctx):
                continue
            R.near(v.tc, dt * np.arange(n), "time-grid", rtol=1e-9, atol=1e-6, ctx=ctx)
            k = traj.regular(v.gammac)
            if v.exitflag == 0 and k == n and np.degrees(v.gammac[-1]) > -80.0:
                R.ok(dur - 1e-6 <= v.tc[-1] <= dur + dt + 1e-6, "duration", lambda: f"{ctx} last {v.tc[-1]}")
            elif v.exitflag == 0 and v.tc[-1] < dur - 1e-6:     # the only other reason to stop: the flight turns vertical before the next sample
                cd = 1.0 / ref.VEH[b][1]
                R.ok(to_vertical(p, Y, dt, A, 0.4 * cd, cd, np.radians(c["bank"])) < -87.0, "duration", lambda: f"{ctx} ends at {v.tc[-1]} s, h={v.h_kmc[-1]} km, gamma {np.degrees(v.gammac[-1])}")
            if k >= 2:
                cd = 1.0 / ref.VEH[b][1]
                res = traj.residual(p, v.tc[:k], Y[:, :k], A.dens, 0.4 * cd, cd, np.radians(c["bank"]))
                w = np.unravel_index(int(np.argmax(res)), res.shape)
                R.ok(np.all(res <= 3e-5), "equations-of-motion", lambda: f"{ctx} residual {res[w]:.2e} in component {w[0]} at t={v.tc[w[1]]} h={v.h_kmc[w[1]]}")
                R.evals += res.shape[1]
            R.state(b, "long", variant, dur, dt); R.outcome("long", b, variant, dur, n, float(v.exitflag))
            if dur == T:
                R.outcome("length", b, bool(v.tc[-1] > 1000))
        m = ref.mk_vehicle(p, tol=1e-9, **kw); getattr(m, nm)(T, 20.0, c["bank"])
        u = traj.util_dict(getattr(ref.mk_vehicle(p, LD=0.4, tol=1e-9), nm.replace("Entry", "Entry_util"))(m.h0_km, th, ph, m.v0_kms, m.gamma0_deg, ps, dr, 0.0, T, 20.0, c["bank"], p.density_int)); R.step()
        compare(R, traj.main_dict(m), u, "helper-long-" + nm)
    R.sample = dict(case=c, last=float(v.tc[-1]))


def run(c, R):
    if c.get("kind") == "long":
        return run_long(c, R)
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b)
    th, ph, ps, dr = GEO[c["geo"]]
    g0 = ref.VEH[b][8] * DG[c["dg"]]
    bank = c["bank"]; delta = np.radians(bank)
    kw = dict(theta=th, phi=ph, psi=ps, drange=dr, gamma=g0, heat=17.0)
    T = 1200.3 if b in ("JUPITER", "SATURN", "URANUS", "NEPTUNE", "TITAN") else 700.3
    S = traj.scale(p)
    base = {}
    for variant in (1, 2):
        nm = "propogateEntry" if variant == 1 else "propogateEntry2"
        runs = [(1e-9, 1.0), (1e-9, 3.0), (1e-6, 1.0)] + ([(1e-8, 0.5), (1e-7, 5.0)] if c["tier"] == "thorough" else [])
        for tol, dt in runs:
            v = ref.mk_vehicle(p, tol=tol, **kw)
            before = {k: x for k, x in v.__dict__.items() if isinstance(x, (int, float, str))}
            getattr(v, nm)(T, dt, bank); R.step()
            ctx = f"{nm} tol={tol} dt={dt}"
            # histories: equal non-zero lengths
            n = len(v.tc)
            Y = traj.states(v)
            if not R.ok(n >= 1 and Y.shape == (7, n), "history-shape", ctx):
                continue
            if n < 2:
                continue
            # initial state
            y0 = np.array([p.RP + v.h0_km * 1e3, np.radians(th), np.radians(ph), v.v0_kms * 1e3, np.radians(ps), np.radians(g0), dr * 1e3])
            R.near(Y[:, 0], y0, "initial-state", rtol=1e-9, atol=1e-9, ctx=ctx)
            R.ok(v.h0_km == ref.VEH[b][6] and v.gamma0_deg == g0 and v.psi0_deg == ps and v.phi0_deg == ph and v.theta0_deg == th and v.drange0_km == dr and v.heatLoad0 == 17.0,
                 "entry-state-kept", ctx)
            # time grid
            R.near(v.tc, dt * np.arange(n), "time-grid", rtol=1e-9, atol=1e-6, ctx=ctx)
            g = regular = traj.regular(v.gammac)
            gd = np.degrees(v.gammac)
            if v.exitflag == 0 and regular == n and gd[-1] + 2 * (gd[-1] - gd[-2]) > -85.0:     # not about to fall vertically
                R.ok(T - 1e-6 <= v.tc[-1] <= T + dt + 1e-6, "duration", lambda: f"{ctx} last {v.tc[-1]} for {T}")
            elif v.exitflag == 0 and v.tc[-1] < T - 1e-6:
                cd = 1.0 / ref.VEH[b][1]
                R.ok(to_vertical(p, Y, dt, A, ref.VEH[b][2] * cd, cd, delta) < -87.0, "duration", lambda: f"{ctx} last {v.tc[-1]} for {T}, gamma {gd[-1]}")
            # unit arrays
            D = 180 / np.pi
            for nmu, want in (("t_minc", v.tc / 60), ("h_kmc", (v.rc - p.RP) / 1e3), ("v_kmsc", v.vc / 1e3), ("phi_degc", v.phic * D), ("psi_degc", v.psic * D),
                              ("theta_degc", v.thetac * D), ("gamma_degc", v.gammac * D), ("drange_kmc", v.drangec / 1e3)):
                R.near(getattr(v, nmu), want, "units-" + nmu, rtol=1e-9, atol=1e-9, ctx=ctx)
            # the samples solve the equations of motion
            cd = v.mass / (ref.VEH[b][1] * v.A) * v.A / v.mass
            k = g
            if k >= 2:
                res = traj.residual(p, v.tc[:k], Y[:, :k], A.dens, ref.VEH[b][2] * cd, cd, delta)
                lim = 600 * tol + 1.5e-5
                w = np.unravel_index(int(np.argmax(res)), res.shape)
                R.ok(np.all(res <= lim), "equations-of-motion", lambda: f"{ctx} residual {res[w]:.2e} > {lim:.1e} in component {w[0]} at t={v.tc[w[1]]} h={v.h_kmc[w[1]]}")
                R.evals += res.shape[1]
            for i in range(0, n, 25):
                R.outcome(b, tuple(np.round(Y[:, i] / S[:, 0], 5)))
            R.outcome("class", b, float(v.exitflag), c["dg"], bank)
            base[(variant, tol, dt)] = (v.tc[:k].copy(), Y[:, :k].copy(), v)
            R.state(b, c["geo"], c["dg"], bank, variant, tol, dt)
        # result independent of output step
        a, d = base.get((variant, 1e-9, 1.0)), base.get((variant, 1e-9, 3.0))
        if a and d:
            m = min((a[1].shape[1] + 2) // 3, d[1].shape[1])
            if m:
                err = np.abs(a[1][:, ::3][:, :m] - d[1][:, :m]) / S
                R.ok(np.all(err < 5e-4), "output-step-independence", lambda: f"{nm}: max {err.max():.2e}")
    a, d = base.get((1, 1e-9, 1.0)), base.get((2, 1e-9, 1.0))
    if a and d:
        m = min(a[1].shape[1], d[1].shape[1])
        err = np.abs(a[1][:, :m] - d[1][:, :m]) / S
        R.ok(np.all(err < 5e-4), "front-end-agreement", lambda: f"max {err.max():.2e}")
        if all(len(x[0]) == len(x[2].tc) and np.degrees(x[2].gammac[-1]) > -60 for x in (a, d)):
            R.ok(abs(a[1].shape[1] - d[1].shape[1]) <= 1 and a[2].exitflag == d[2].exitflag, "front-end-length", lambda: f"{a[1].shape[1]} {d[1].shape[1]}")
    # a drag coefficient that depends on Mach number is flown too, by both front ends and both helpers
    for variant in (1, 2):
        nm = "propogateEntry" if variant == 1 else "propogateEntry2"
        v = ref.mk_vehicle(p, tol=1e-9, cdmach=cdm, **kw)
        getattr(v, nm)(T, 2.0, bank); R.step()
        Y = traj.states(v); k = traj.regular(v.gammac)
        if k >= 2:
            am = v.A / v.mass
            CL = ref.VEH[b][2] * v.mass / (ref.VEH[b][1] * v.A)
            res = traj.residual(p, v.tc[:k], Y[:, :k], A.dens, CL * am, lambda r, s: cdm(s / A.fa(r - p.RP)) * am, delta)
            w = np.unravel_index(int(np.argmax(res)), res.shape)
            R.ok(np.all(res <= 2e-5), "equations-of-motion-user-drag", lambda: f"{nm} residual {res[w]:.2e} in component {w[0]} at t={v.tc[w[1]]} h={v.h_kmc[w[1]]}")
            R.evals += res.shape[1]
        u = traj.util_dict(getattr(v, nm.replace("Entry", "Entry_util"))(v.h0_km, th, ph, v.v0_kms, g0, ps, dr, 17.0, T, 2.0, bank, p.density_int)); R.step()
        compare(R, traj.main_dict(v), u, "helper-user-drag-" + nm)
    # stand-alone helpers: same trajectory, vehicle untouched
    for variant in (1, 2):
        nm, ut = ("propogateEntry", "propogateEntry_util") if variant == 1 else ("propogateEntry2", "propogateEntry_util2")
        fac = 1.0 if c["geo"] % 2 == 0 else 1.3
        f = (lambda q: (lambda h: fac * q(h)))(p.density_int)
        pd = ref.mk_planet(b); pd.density_int = f
        m = ref.mk_vehicle(pd, **kw); getattr(m, nm)(T, 2.0, bank); R.step()
        v = ref.mk_vehicle(p)        # configured with a different entry state: the helper's arguments must decide
        keep = snapshot(v)
        u = traj.util_dict(getattr(v, ut)(m.h0_km, th, ph, m.v0_kms, g0, ps, dr, 17.0, T, 2.0, bank, f)); R.step()
        compare(R, traj.main_dict(m), u, "helper-" + ut)
        R.ok(unchanged(v, keep), "helper-changes-vehicle", lambda: f"{ut}: {diff(keep, snapshot(v))}")
        R.ok(v.planetObj is p and p.density_int(A.h[3]) == A.fd(A.h[3]), "helper-changes-planet", ut)
        # drag modulation helper: flies the high ballistic coefficient
        ut = "propogateEntry_utilD" if variant == 1 else "propogateEntry_utilD2"
        b1, ratio = 40.0, 5.0 + c["dg"]
        m = ref.mk_vehicle(pd, beta=b1 * ratio, LD=0.0, **kw); getattr(m, nm)(T, 2.0, bank); R.step()
        v = ref.mk_vehicle(p, beta=b1, LD=0.0); v.setDragModulationVehicleParams(b1, ratio)
        keep = snapshot(v)
        u = traj.util_dict(getattr(v, ut)(m.h0_km, th, ph, m.v0_kms, g0, ps, dr, 17.0, T, 2.0, bank, f)); R.step()
        compare(R, traj.main_dict(m), u, "helper-" + ut)
        R.ok(unchanged(v, keep), "helper-changes-vehicle", lambda: f"{ut}: {diff(keep, snapshot(v))}")
    R.sample = dict(case=c, samples=int(n), flag=float(base[(1, 1e-9, 1.0)][2].exitflag) if (1, 1e-9, 1.0) in base else None)


def snapshot(v):
    return {k: x for k, x in v.__dict__.items() if isinstance(x, (int, float, str, bool)) or np.isscalar(x)}


def unchanged(v, keep):
    """every scalar attribute the vehicle had still has its value (new attributes are allowed)"""
    return all(k in v.__dict__ and v.__dict__[k] == x for k, x in keep.items())


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def compare(R, want, got, sig):
    g = np.asarray(want["gamma_deg"], float)
    k = traj.regular(np.radians(g))
    if k == len(g):
        R.ok(float(got["exitflag"]) == float(want["exitflag"]), sig + "-exitflag")
        R.ok(len(got["h_km"]) == len(g), sig + "-length", lambda: f"{len(got['h_km'])} instead of {len(g)}")
    for key in want:
        if key == "exitflag":
            continue
        w, q = np.asarray(want[key], float), np.asarray(got[key], float)
        R.ok(len(q) == len(got["h_km"]), sig + "-lengths", key)
        m = min(k, len(w), len(q))
        R.near(q[:m], w[:m], sig + "-" + key, rtol=1e-5, atol=1e-5 * (1e-9 + np.max(np.abs(w[:m])) if m else 1))
