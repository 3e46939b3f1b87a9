"""C20: the aerocapture orbiter. Flights that leave the atmosphere over a product of exit positions, headings, speeds and angles (through the real propagators), every requested periapsis, and every two-burn
sequence (probe targeting, then orbiter deflection) over grids of burn positions and sizes; all quantities are checked against Cartesian two-body mechanics starting from the flight's exit state."""
import numpy as np
from . import ref
PID, LEVEL = "C20", "exploration"
RULE = ("full product body x exit longitude x latitude (equator, poleward, both hemispheres) x heading (8, exactly east and west included) x exit speed (up to 0.9999 of escape) x exit angle x propagator, then "
        "x periapsis altitude (just outside the atmosphere, half-way, circular, above the coast apoapsis) x probe burn (position on the orbit x signed size, zero included) x deflection burn x number of samples; plus whole aerocapture flights, and atmospheric boundaries set by the user; "
        "distinct = orbits and burns")
ASSUME = ["the vehicle is captured (negative energy) and its coast apoapsis and the requested periapsis lie outside the atmosphere", "burns leave the vehicle on a bound orbit",
          "for orbits within 1e-5 rad of equatorial the node is not judged, positions and velocities are"]
CHUNK = 2
K_POS = "probe-position-uses-capture-orbit-argument-of-periapsis"
K_DEF = "deflection-position-uses-capture-orbit-argument-of-periapsis"
K_GAM = "probe-relative-angle-uses-inertial-velocity"
K_HDG = "probe-heading-arccos-of-unnormalised-projection"
FUDGE = 1e-7


def cases(tier):
    out = []
    for b in ref.BODIES:
        for var in ("", "2"):
            for phi in (0.0, 35.0, -62.0) + ((12.0, 80.0) if tier == "thorough" else ()):
                for th in (0.0, 215.0):
                    out.append(dict(kind="exit", body=b, var=var, phi=phi, th=th, tier=tier))
        out.append(dict(kind="exit", body=b, var="2", phi=-25.0, th=95.0, tier=tier, user=True))
        for psi in (0.0, 50.0, 180.0, 285.0):
            out.append(dict(kind="flight", body=b, psi=psi, tier=tier))
    return out


class Orb:
    """two-body orbit through (X, V)"""
    def __init__(s, GM, X, V):
        s.GM = GM; s.X, s.V = np.asarray(X, float), np.asarray(V, float)
        s.r, s.v = np.linalg.norm(X), np.linalg.norm(V)
        s.En = s.v**2 / 2 - GM / s.r
        s.a = -GM / (2 * s.En)
        s.H = np.cross(X, V); s.h = np.linalg.norm(s.H); s.Hu = s.H / s.h
        ev = np.cross(V, s.H) / GM - X / s.r
        s.e = np.linalg.norm(ev)
        s.P = ev / s.e if s.e > 1e-12 else X / s.r
        s.Q = np.cross(s.Hu, s.P)
        s.p = s.h**2 / GM
        s.rp, s.ra = s.a * (1 - s.e), s.a * (1 + s.e)
        s.f = np.arctan2(np.dot(X, s.Q), np.dot(X, s.P)) % (2 * np.pi)

    @classmethod
    def from_apses(cls, GM, rp, ra, P, Hu):
        a = (rp + ra) / 2
        return cls(GM, P * rp, np.cross(Hu, P) * np.sqrt(GM * (2 / rp - 1 / a)))

    def at(s, f):
        f = np.asarray(f, float)[..., None]
        X = s.p / (1 + s.e * np.cos(f)) * (np.cos(f) * s.P + np.sin(f) * s.Q)
        V = np.sqrt(s.GM / s.p) * (-np.sin(f) * s.P + (s.e + np.cos(f)) * s.Q)
        return X, V


def fpa_tol(o, f):
    """the flight-path angles are formed from an arccos whose argument is reduced by 1e-7"""
    g = abs(np.arctan2(o.e * np.sin(f), 1 + o.e * np.cos(f)))
    return min(5e-4, 2 * FUDGE / max(np.tan(g), 1e-9)) + 1e-6


def angle(R, got, want, sig, tol, ctx):
    d = (np.asarray(got, float) - want + np.pi) % (2 * np.pi) - np.pi
    return R.near(d, 0.0, sig, atol=tol, ctx=ctx)


def plane(R, O, o, suf, ctx):
    g = lambda n: getattr(O, n + suf)
    R.near(g("h_vec_bi_unit"), o.Hu, "plane" + suf, atol=1e-7, ctx=ctx)
    R.near(np.cos(g("i")), o.Hu[2], "inclination" + suf, atol=1e-7, ctx=ctx)
    n = np.array([-o.Hu[1], o.Hu[0], 0.0]); s = np.linalg.norm(n)
    t = 1e-6 + 1e-7 / max(s, 1e-9)
    if s > 1e-5:
        n /= s
        R.near(g("N_vec_bi_unit"), n, "node" + suf, atol=t, ctx=ctx)
        angle(R, g("OMEGA"), np.arctan2(n[1], n[0]), "node-angle" + suf, t, ctx)
        if o.e > 1e-3:
            angle(R, g("omega"), np.arctan2(np.dot(np.cross(n, o.P), o.Hu), np.dot(n, o.P)), "periapsis-argument" + suf, t + 1e-8 / o.e + 1e-3 * 0, ctx)
    return s


def arrays(O, names, RP):
    return np.array([getattr(O, n) for n in names]).T * RP


def on_orbit(R, pts, o, sig, tol, ctx):
    """every sample lies on the orbit: in its plane and at its radius for that direction"""
    pts = np.asarray(pts, float)
    r = np.linalg.norm(pts, axis=1)
    f = np.arctan2(pts @ o.Q, pts @ o.P)
    good = np.all(np.abs(pts @ o.Hu) <= tol * r) and np.all(np.abs(o.p / (1 + o.e * np.cos(f)) - r) <= tol * r)
    return good, f


def run(c, R):
    return globals()["run_" + c["kind"]](c, R)


def run_exit(c, R):
    b = c["body"]
    full = c["tier"] == "thorough"
    p = ref.mk_planet(b); k = ref.CONST[b]
    RP, OM, GM = k[0], k[1], k[2]
    if c.get("user"):
        ref.user_thresholds(p)
    r0 = RP + p.h_skip
    j = 0
    for psi in (0.0, 45.0, 90.0, 140.0, 180.0, 225.0, 270.0, 330.0):
        for fv in (0.8, 0.93, 0.985, 0.9999):
            for g in (2.0, 9.0) + ((30.0,) if full else ()):
                j += 1
                ph, ps = np.radians(c["phi"]), np.radians(psi)
                rot = OM * r0 * np.cos(ph)
                # relative speed that gives the wanted inertial one
                u = fv * np.sqrt(2 * GM / r0); cg = np.cos(np.radians(g)) * np.cos(ps)
                v = -rot * cg + np.sqrt(max(0, u * u - rot * rot * (1 - cg * cg)))
                q = ref.mk_planet(b) if c.get("user") else p      # the user's thresholds arrive after the vehicle was built
                x = ref.mk_vehicle(q, h0=p.h_skip / 1e3 - 2.0, theta=c["th"], phi=c["phi"], v0=v / 1e3, psi=psi, gamma=g)
                if q is not p:
                    ref.user_thresholds(q)
                getattr(x, "propogateEntry" + c["var"])(1200.0, 0.5, 0.0); R.step()
                if x.rc[-1] < r0 - 1500.0:
                    continue
                examine(R, c, p, x, f"{b} exit phi {c['phi']} theta {c['th']} psi {psi} {fv} of escape, angle {g}", j, full)
                if j % 24 == 3:
                    reflown(R, c, x, f"{b} exit phi {c['phi']} theta {c['th']} psi {psi}")
                if len(R.problems) >= 40:
                    return
    R.sample = dict(case=c, exits=j)


def reflown(R, c, x, ctx):
    """the orbit belongs to the flight the orbiter was built from, also after its vehicle has flown again"""
    from AMAT.orbiter import Orbiter
    K = ("x_coast_arr", "y_coast_arr", "z_coast_arr", "x_orbit_arr", "y_orbit_arr", "z_orbit_arr", "PRM_dv_vec", "r_apoapsis_mag", "v_apoapsis_vec_coast", "terminal_r_vec", "terminal_v_ie_vec")
    O = Orbiter(x, x.planetObj.h_skip / 1e3 + 70.0); R.step()
    had = {k: np.array(getattr(O, k), float) for k in K}
    x.setInitialState(x.h0_km, 40.0, -20.0, 0.97 * x.v0_kms, 77.0, x.gamma0_deg + 1.0, 0.0, 0.0)
    getattr(x, "propogateEntry" + c["var"])(300.0, 0.5, 0.0)
    O.compute_coast_trajectory(); O.compute_orbit_trajectory(); R.step(3)
    for k in K:
        R.near(getattr(O, k), had[k], "orbit-follows-a-later-flight", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(had[k]))), ctx=lambda: f"{k} {ctx}")
    R.state(ctx, "reflown")


def run_flight(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    for ph, bank, dg in ((0.0, 180.0, 0.0), (0.0, 60.0, 0.0), (48.0, 0.0, 0.0), (-20.0, 120.0, 0.0), (0.0, 0.0, 0.2), (60.0, 60.0, 0.3)):
        x = ref.mk_vehicle(p, theta=-15.0, phi=ph, psi=c["psi"], gamma=ref.VEH[b][8] + dg)
        x.propogateEntry2(4000.0, 1.0, bank); R.step()
        if x.rc[-1] < RPs(p) + p.h_skip - 2e4 or x.gammac[-1] < 0:
            continue
        examine(R, c, p, x, f"{b} flight phi {ph} psi {c['psi']} bank {bank} {dg}", 0, True)
    R.sample = dict(case=c)


def RPs(p):
    return p.RP


def examine(R, c, p, x, ctx, j, full):
    from AMAT.orbiter import Orbiter
    b = c["body"]; k = ref.CONST[b]
    RP, OM, GM = k[0], k[1], k[2]
    X, V = ref.inertial(OM, x.rc[-1], x.vc[-1], x.gammac[-1], x.thetac[-1], x.phic[-1], x.psic[-1])
    o = Orb(GM, X, V)
    if o.En >= -1e-7 * GM / o.r or o.ra < RP + p.h_skip + 1e5 or o.e < 1e-3:
        return
    top = RP + p.h_skip
    peris = [("low", top + 5e4)] + ([("mid", 0.6 * top + 0.4 * o.ra)] if (j % 2 or full) else []) + ([("circ", o.ra)] if j % 8 == 0 or full else []) + ([("high", 1.4 * o.ra)] if j % 4 == 1 or full else [])
    for nm, rper in peris:
        if rper > o.ra and nm != "high":
            continue
        alt = (rper - RP) / 1e3
        keep = {n: np.array(getattr(x, n)) for n in ("rc", "vc", "gammac", "thetac", "phic", "psic")}
        O = Orbiter(x, alt); R.step()
        ct = f"{ctx} periapsis {nm} {alt}"
        for n, w in (("r", x.rc[-1]), ("theta", x.thetac[-1]), ("phi", x.phic[-1]), ("v", x.vc[-1]), ("g", x.gammac[-1]), ("psi", x.psic[-1])):
            R.near(getattr(O, "terminal_" + n), w, "exit-state", rtol=1e-12, ctx=ct)
        R.near(O.terminal_r_vec, X, "exit-position", atol=1e-9 * o.r, ctx=ct)
        R.near(O.terminal_r_hat_vec, X / o.r, "exit-position", atol=1e-9, ctx=ct)
        Vr = V - np.cross([0, 0, OM], X)
        R.near(O.terminal_v_vec, Vr, "exit-velocity-relative", atol=1e-9 * o.v, ctx=ct)
        R.near(O.terminal_v_hat_vec, Vr / np.linalg.norm(Vr), "exit-velocity-relative", atol=1e-8, ctx=ct)
        R.near(O.terminal_v_ie_vec, V, "exit-velocity", atol=1e-9 * o.v, ctx=ct)
        R.near(O.terminal_v_ie_hat_vec, V / o.v, "exit-velocity", atol=1e-9, ctx=ct)
        R.near(O.v_ie_mag, o.v, "exit-velocity", rtol=1e-9, ctx=ct)
        fpa = np.arcsin(np.dot(X, V) / o.r / o.v)
        R.near(O.terminal_fpa_ie_rad, fpa, "exit-angle", atol=1e-7, ctx=ct)
        R.near(O.terminal_fpa_ie_deg, np.degrees(fpa), "exit-angle", atol=1e-5, ctx=ct)
        for n, w in (("r", o.r), ("theta", x.thetac[-1]), ("phi", x.phic[-1]), ("v", o.v)):
            R.near(getattr(O, f"terminal_{n}_bi"), w, "exit-state-inertial", rtol=1e-9, ctx=ct)
        R.near(O.terminal_g_bi, fpa, "exit-state-inertial", atol=1e-7, ctx=ct)
        R.near(O.terminal_E, o.En, "energy", rtol=1e-9, atol=1e-10 * o.v**2, ctx=ct)
        R.near(O.terminal_h, o.h, "angular-momentum", rtol=1e-8, ctx=ct)
        # coast
        ill = 1 + GM / o.r / abs(o.En)           # sensitivity of a and apoapsis to rounding near escape
        t = 1e-8 * ill + 1e-7
        s = plane(R, O, o, "", ct)
        R.near(O.e_vec_bi / np.linalg.norm(O.e_vec_bi), o.P, "periapsis-direction", atol=t, ctx=ct)
        fx = o.f
        ft = 1e-7 + 1e-8 / (o.e * max(abs(np.sin(fx)), 1e-3))
        R.near(O.theta_star_exit, fx, "exit-anomaly", atol=ft, ctx=ct)
        C = arrays(O, ("x_coast_arr", "y_coast_arr", "z_coast_arr"), RP)
        ff = np.linspace(fx, np.pi, len(C))
        CX, _ = o.at(ff)
        R.ok(len(C) >= 2 and np.all(np.abs(C - CX) <= (3 * t + 3 * ft) * np.linalg.norm(CX, axis=1)[:, None]), "coast-positions", ct)
        R.near(C[0], X, "coast-starts-at-exit", atol=(t + 4 * ft) * o.r, ctx=ct)
        R.near(O.r_apoapsis_mag, o.ra, "apoapsis", rtol=2 * t, ctx=ct)
        R.near(np.asarray(O.r_apoapsis_vec) * RP, -o.P * o.ra, "apoapsis", atol=4 * t * o.ra, ctx=ct)
        va = o.h / o.ra
        R.near(O.v_apoapsis_vec_coast, -o.Q * va, "apoapsis-velocity-coast", atol=va * (1e-3 + 4 * t), ctx=ct)
        R.near(O.v_apoapsis_mag_coast, va, "apoapsis-velocity-coast", rtol=4 * t + 1e-6, ctx=ct)
        if nm == "high":                          # the burn lifts the other apsis above the burn point
            w = Orb.from_apses(GM, o.ra, rper, -o.P, o.Hu)
            wa = w.h / o.ra
            R.near(O.a, w.a, "raised-a", rtol=4 * t, ctx=ct)
            R.near(O.h, w.h, "raised-h", rtol=4 * t, ctx=ct)
            R.near(O.v_apoapsis_vec_orbit, -o.Q * wa, "apoapsis-velocity-orbit", atol=wa * (1e-3 + 4 * t), ctx=ct)
            R.near(O.PRM_dv_vec, -o.Q * (wa - va), "periapsis-raise", atol=1e-3 * (wa - va) + (wa + va) * (4 * t), ctx=ct)
            R.near(O.PRM_dv_mag, wa - va, "periapsis-raise", rtol=1e-6, atol=(wa + va) * (4 * t), ctx=ct)
            S = arrays(O, ("x_orbit_arr", "y_orbit_arr", "z_orbit_arr"), RP)
            R.ok(len(S) >= 3 and on_orbit(R, S, w, "", 10 * t, ct)[0], "orbit-samples", ct)
            R.near([np.linalg.norm(S, axis=1).min(), np.linalg.norm(S, axis=1).max()], [o.ra, rper], "apoapsis-unchanged", rtol=8 * t, ctx=ct)
            R.state(b, ctx, nm); R.outcome(b, round(float(O.PRM_dv_mag), 3), nm)
            continue
        # raised orbit
        w = Orb.from_apses(GM, rper, o.ra, o.P, o.Hu)
        R.near(O.r_periapsis_mag, rper, "requested-periapsis", rtol=1e-12, ctx=ct)
        R.near(O.a, w.a, "raised-a", rtol=4 * t, ctx=ct)
        R.near(O.e, (o.ra - rper) / (o.ra + rper), "raised-e", atol=4 * t, ctx=ct)
        R.near(O.h, w.h, "raised-h", rtol=4 * t, ctx=ct)
        wa = w.h / o.ra
        R.near(O.v_apoapsis_vec_orbit, -o.Q * wa, "apoapsis-velocity-orbit", atol=wa * (1e-3 + 4 * t), ctx=ct)
        R.near(O.v_apoapsis_mag_orbit, wa, "apoapsis-velocity-orbit", rtol=4 * t + 1e-6, ctx=ct)
        R.near(O.PRM_dv_vec, -o.Q * (wa - va), "periapsis-raise", atol=1e-3 * abs(wa - va) + (wa + va) * (4 * t), ctx=ct)
        R.near(O.PRM_dv_mag, abs(wa - va), "periapsis-raise", rtol=1e-6, atol=(wa + va) * (4 * t), ctx=ct)
        S = arrays(O, ("x_orbit_arr", "y_orbit_arr", "z_orbit_arr"), RP)
        fs = np.linspace(np.pi, 3 * np.pi, len(S))
        # the raised orbit keeps the coast's periapsis direction

        def orbit_at(fs):
            r_ = (w.h**2 / GM) / (1 + (o.ra - rper) / (o.ra + rper) * np.cos(fs))
            return r_[:, None] * (np.cos(fs)[:, None] * o.P + np.sin(fs)[:, None] * o.Q)
        SX = orbit_at(fs)
        R.ok(len(S) >= 3 and np.all(np.abs(S - SX) <= 8 * t * np.linalg.norm(SX, axis=1)[:, None]), "orbit-samples", lambda: f"{ct} worst {np.max(np.abs(S - SX))}")
        R.near(np.linalg.norm(S, axis=1).max(), max(o.ra, rper), "apoapsis-unchanged", rtol=8 * t, ctx=ct)
        num = (2, 3, 7, 48)[(j + int(c.get("phi", 0))) % 4]
        O.compute_orbit_trajectory(num_points=num)
        S = arrays(O, ("x_orbit_arr", "y_orbit_arr", "z_orbit_arr"), RP)
        SX = orbit_at(np.linspace(np.pi, 3 * np.pi, num))
        R.ok(S.shape == SX.shape and np.all(np.abs(S - SX) <= 8 * t * np.linalg.norm(SX, axis=1)[:, None]), "orbit-samples-count", lambda: f"{ct} {num} points {S.shape}")
        # resampling the coast afterwards gives the coast again and leaves the raised orbit alone
        had = {n: np.array(getattr(O, n)) for n in ("a", "e", "h", "omega", "OMEGA", "i", "PRM_dv_vec", "x_orbit_arr", "v_apoapsis_vec_orbit")}
        O.compute_coast_trajectory(num_points=num + 1); R.step()
        C = arrays(O, ("x_coast_arr", "y_coast_arr", "z_coast_arr"), RP)
        CX, _ = o.at(np.linspace(fx, np.pi, num + 1))
        R.ok(C.shape == CX.shape and np.all(np.abs(C - CX) <= (3 * t + 3 * ft) * np.linalg.norm(CX, axis=1)[:, None]), "coast-resampled", lambda: f"{ct} {num + 1} points {C.shape}")
        R.near(O.r_apoapsis_mag, o.ra, "coast-resampled", rtol=2 * t, ctx=ct)
        R.near(O.v_apoapsis_vec_coast, -o.Q * va, "coast-resampled", atol=va * (1e-3 + 4 * t), ctx=ct)
        for n in had:
            R.near(getattr(O, n), had[n], "coast-resampling-changed-orbit", rtol=1e-9, atol=1e-9, ctx=lambda: f"{n} {ct}")
        for n in keep:
            R.ok(np.array_equal(keep[n], getattr(x, n)), "vehicle-changed", f"{n} {ct}")
        R.state(b, ctx, nm); R.outcome(b, round(float(O.PRM_dv_mag), 3), nm)
        if nm == "circ":
            continue
        for f in (0.0, 1.0, np.pi * 178 / 180, np.pi, 4.4):
            q = pos_vel(R, O, w, f, t, ct)
            if (full and nm == "low") or j % 8 == 1 or f == np.pi:
                burns(R, c, p, O, w, f, t, ct, full)


def pos_vel(R, O, w, f, t, ct):
    X, V = w.at(f)
    r, v = np.linalg.norm(X), np.linalg.norm(V)
    R.near(O.pos_vec_bi(f), X, "position", atol=8 * t * r, ctx=lambda: f"{ct} true anomaly {f}")
    R.near(O.r_mag_bi(f), r, "radius", rtol=8 * t, ctx=ct)
    R.near(O.vel_vec_bi(f), V, "velocity", atol=(fpa_tol(w, f) + 16 * t) * v, ctx=lambda: f"{ct} true anomaly {f}")
    R.near(np.linalg.norm(O.vel_vec_bi(f)), v, "speed", rtol=16 * t, ctx=ct)


def burns(R, c, p, O, w, f, t, ct0, full):
    b = c["body"]; k = ref.CONST[b]
    RP, OM, GM = k[0], k[1], k[2]
    X1, V1 = np.asarray(O.pos_vec_bi(f), float), np.asarray(O.vel_vec_bi(f), float)     # judged by pos_vel
    v1 = np.linalg.norm(V1)
    rE = RP + p.h_skip
    ra = np.linalg.norm(X1)
    # size that puts the opposite apsis 0.5 h_skip above the surface when applied at apoapsis, fractions, zero and a raise
    for q, num in ((-0.35, 3), (-0.04, None), (-0.002, 47), (0.0, None), (0.01, 4)):
        at = (p.RP + 0.5 * p.h_skip)
        dv = q * v1
        if q == -0.04:
            aa = (ra + at) / 2
            dv = np.sqrt(GM * (2 / ra - 1 / aa)) - v1 if f == np.pi else q * v1
        V2 = V1 * (1 + dv / v1)
        o = Orb(GM, X1, V2)
        if o.En >= -1e-6 * GM / o.r or o.rp < 0.05 * RP or o.e < 1e-3:
            continue
        if abs(o.rp - rE) < 2e3 or o.ra < rE + 2e3:
            continue
        ct = f"{ct0} probe burn {dv} at {f}"
        O.compute_probe_targeting_trajectory(f, dv, **({} if num is None else dict(num_points=num))); R.step()
        R.near(O.dV_mag_probe_targeting, dv, "burn-size", rtol=1e-12, ctx=ct)
        R.near(O.theta_star_probe_targeting, f, "burn-position", rtol=1e-12, ctx=ct)
        R.near(O.dV_vec_probe_targeting, dv * V1 / v1, "burn-vector", atol=1e-9 * v1, ctx=ct)
        ill = 1 + GM / o.r / abs(o.En) + 1 / o.e
        t2 = 1e-7 * ill + t
        R.near(O.E_post_maneuver, o.En, "probe-energy", atol=1e-9 * v1**2, ctx=ct)
        R.near(O.h_post_maneuver, o.h, "probe-angular-momentum", rtol=1e-7, ctx=ct)
        R.near(O.a_probe_orbit, o.a, "probe-a", rtol=t2, ctx=ct)
        R.near(O.e_probe_orbit, o.e, "probe-e", atol=t2, ctx=ct)
        R.near(O.h_probe_orbit, o.h, "probe-angular-momentum", rtol=t2, ctx=ct)
        R.near(O.r_periapsis_probe, o.rp, "probe-periapsis", atol=2 * t2 * o.a, ctx=ct)
        R.near(O.h_periapsis_probe, o.rp - RP, "probe-periapsis", atol=2 * t2 * o.a, ctx=ct)
        R.near(O.r_apoapsis_probe, o.ra, "probe-apoapsis", atol=2 * t2 * o.a, ctx=ct)
        plane(R, O, o, "_probe_orbit", ct)
        P3 = ("x_probe_orbit_arr", "y_probe_orbit_arr", "z_probe_orbit_arr")
        D = arrays(O, P3, RP)
        R.ok(num is None or len(D) == num, "probe-samples-count", lambda: f"{ct} {num} points asked, {len(D)} given")
        enters = o.rp < rE
        fe = 2 * np.pi - np.arccos((o.p / rE - 1) / o.e) if enters else 2 * np.pi
        # positions: the true probe orbit, or (known finding) the same radii laid out from the capture orbit's argument of periapsis
        pins = Orb.__new__(Orb); pins.__dict__.update(o.__dict__); N = np.asarray(O.N_vec_bi_unit_probe_orbit, float); M = np.cross(o.Hu, N)
        pins.P = np.cos(O.omega) * N + np.sin(O.omega) * M; pins.Q = np.cross(o.Hu, pins.P)

        def same(got, ff, oo, tol):
            Y = oo.at(np.asarray(ff, float))[0]
            return got.shape == Y.shape and np.all(np.abs(got - Y) <= tol * np.linalg.norm(Y, axis=-1, keepdims=True))
        t3 = 1e-6 + 20 * t2
        if enters:
            cond = 1 + 1 / max(abs(o.e * np.sin(fe)), 1e-4)
            t4 = t3 * cond
            R.near(O.r_EI, rE, "probe-interface", rtol=1e-12, ctx=ct)
            R.near(O.h_EI, p.h_skip, "probe-interface", rtol=1e-12, ctx=ct)
            R.near(O.theta_star_probe_entry, fe, "probe-entry-anomaly", atol=t4, ctx=ct)
            Xe, Ve = o.at(fe)
            ve = np.linalg.norm(Ve)
            rg = np.asarray(O.r_vec_bi_probe_entry, float)
            if not same(rg, fe, o, 3 * t4):
                if same(rg, fe, pins, 3 * t4):
                    once(R, K_POS, f"entry position {rg.tolist()} instead of {Xe.tolist()} {ct}")
                else:
                    R.near(rg, Xe, "probe-entry-position", atol=3 * t4 * rE, ctx=ct)
            R.near(O.r_vec_bi_probe_entry_mag, rE, "probe-entry-radius", rtol=t3, ctx=ct)
            R.near(O.r_vec_bi_probe_entry_unit, rg / rE, "probe-entry-position", atol=t3, ctx=ct)
            vg = np.asarray(O.v_bi_vec_probe_entry, float)
            R.near(vg, Ve, "probe-entry-velocity", atol=(4 * t4 + fpa_tol(o, fe)) * ve, ctx=ct)
            R.near(O.v_bi_mag_probe_entry, ve, "probe-entry-speed", rtol=t3, ctx=ct)
            R.near(O.v_bi_vec_probe_entry_unit, vg / ve, "probe-entry-velocity", atol=t3, ctx=ct)
            ge = np.arctan2(o.e * np.sin(fe), 1 + o.e * np.cos(fe))
            R.near(O.gamma_inertial_probe_entry, ge, "probe-entry-angle", atol=t3 * (1 + 1 / np.tan(abs(ge))), ctx=ct)
            # everything below follows from the reported position and velocity
            ru = rg / np.linalg.norm(rg)
            cl = np.hypot(ru[0], ru[1])
            R.near(O.latitude_probe_entry_bi, np.arcsin(ru[2]), "probe-latitude", atol=1e-7 / max(cl, 1e-3), ctx=ct)
            if cl > 1e-5:
                angle(R, O.longitude_probe_entry_bi, np.arctan2(ru[1], ru[0]), "probe-longitude", 1e-7 / cl, ct)
            Wv = vg - np.cross([0, 0, OM], rg); wv = np.linalg.norm(Wv)
            R.near(O.v_vec_probe_entry_atm, Wv, "probe-relative-velocity", atol=1e-7 * ve, ctx=ct)
            R.near(O.v_mag_probe_entry_atm, wv, "probe-relative-speed", atol=1e-7 * ve, ctx=ct)
            R.near(O.v_vec_probe_entry_atm_unit, Wv / wv, "probe-relative-velocity", atol=1e-6, ctx=ct)
            ga = np.arcsin(np.dot(ru, Wv) / wv)
            if abs(O.gamma_atm_probe_entry - ga) > 1e-6:
                if abs(O.gamma_atm_probe_entry - np.arcsin(np.dot(ru, vg) / ve)) < 1e-6:
                    once(R, K_GAM, f"relative entry angle {O.gamma_atm_probe_entry} instead of {ga} {ct}")
                else:
                    R.near(O.gamma_atm_probe_entry, ga, "probe-relative-angle", atol=1e-6, ctx=ct)
            pr = Wv / wv - np.dot(Wv, ru) / wv * ru
            R.near(O.v_atm_probe_entry_unit_proj, pr, "probe-projection", atol=1e-6, ctx=ct)
            if cl > 1e-4:
                east = np.array([-ru[1], ru[0], 0]) / cl; north = np.cross(ru, east)
                R.near(O.atm_probe_entry_local_latitude_parallel_vec_unit, east, "probe-east", atol=1e-7 / cl, ctx=ct)
                hd = np.arctan2(np.dot(pr, north), np.dot(pr, east))
                d = (O.heading_atm_probe_entry - hd + np.pi) % (2 * np.pi) - np.pi
                tt = np.sqrt(1e-6 / cl)
                if abs(d) > tt:
                    if abs(O.heading_atm_probe_entry - np.arccos(np.clip(np.dot(pr, east), -1, 1))) < tt:
                        once(R, K_HDG, f"heading {O.heading_atm_probe_entry} instead of {hd} {ct}")
                    else:
                        R.near(d, 0, "probe-heading", atol=tt, ctx=ct)
        if len(D) < 3:
            R.fail("probe-samples", ct)
        else:
            # true: starts at the burn point, ends at entry (or periapsis), all on the orbit
            okt, g = on_orbit(R, D, o, "", 10 * t3, ct)
            cond = 1 + (1 / max(abs(o.e * np.sin(fe)), 1e-4) if enters else 0)
            okt = okt and np.all(np.abs(D[0] - X1) <= 10 * t3 * ra) and same(D[-1], fe, o, 10 * t3 * cond)
            R.evals += 1
            if not okt:
                if same(D, np.linspace(f, fe, len(D)), pins, 10 * t3 * cond):
                    once(R, K_POS, f"probe samples {ct}")
                else:
                    R.fail("probe-samples", f"{ct} first {D[0].tolist()} burn point {X1.tolist()} last {D[-1].tolist()}")
        R.state(ct); R.outcome(b, round(float(O.h_periapsis_probe), 0))
        gs = (2.0, np.pi, np.pi * 182 / 180, 4.0)
        for g in gs if (full or q == -0.04) else gs[1:2]:
            yv = np.asarray(O.vel_vec_bi_probe(g), float); yp = np.asarray(O.pos_vec_bi_probe(g), float)
            Y, Yv = o.at(g)
            R.near(np.linalg.norm(yp), np.linalg.norm(Y), "probe-radius", rtol=10 * t3, ctx=ct)
            if not same(yp, g, o, 10 * t3):
                if same(yp, g, pins, 10 * t3):
                    once(R, K_POS, f"probe position at {g} {ct}")
                else:
                    R.near(yp, Y, "probe-position", atol=10 * t3 * np.linalg.norm(Y), ctx=ct)
            R.near(yv, Yv, "probe-velocity", atol=(10 * t3 + fpa_tol(o, g)) * np.linalg.norm(Yv), ctx=lambda: f"{ct} at {g}")
            for dq, dn in ((0.03, None), (-0.01, 5), (0.0, 33)):
                deflect(R, c, p, O, w, yp, yv, g, dq, ct, dn)
                if len(R.problems) >= 40:
                    return


def once(R, sig, msg):
    if not any(s == sig for s, _ in R.problems):
        R.fail(sig, msg)


def deflect(R, c, p, O, w, X1, V1, g, dq, ct, num):
    b = c["body"]; k = ref.CONST[b]
    RP, OM, GM = k[0], k[1], k[2]
    v1 = np.linalg.norm(V1); dv = dq * v1
    o = Orb(GM, X1, V1 * (1 + dq))
    if o.En >= -1e-6 * GM / o.r or o.e < 1e-3 or o.rp < 0.05 * RP or np.hypot(*o.Hu[:2]) < 0:
        return
    O.compute_orbiter_deflection_trajectory(g, dv, **({} if num is None else dict(num_points=num))); R.step()
    ct = f"{ct} deflection {dv} at {g}"
    R.near(O.dV_mag_orbiter_deflection, dv, "deflection-size", rtol=1e-12, ctx=ct)
    R.near(O.dV_vec_orbiter_deflection, dv * V1 / v1, "deflection-vector", atol=1e-9 * v1, ctx=ct)
    t = 1e-7 * (1 + GM / o.r / abs(o.En) + 1 / o.e)
    R.near(O.E_orbiter_defl, o.En, "deflection-energy", atol=1e-9 * v1**2, ctx=ct)
    R.near(O.a_orbiter_defl, o.a, "deflection-a", rtol=t, ctx=ct)
    R.near(O.e_orbiter_defl, o.e, "deflection-e", atol=t, ctx=ct)
    R.near(O.h_orbiter_defl, o.h, "deflection-h", rtol=t, ctx=ct)
    R.near(O.r_periapsis_orbiter_defl, o.rp, "deflection-periapsis", atol=2 * t * o.a, ctx=ct)
    R.near(O.h_periapsis_orbiter_defl, o.rp - RP, "deflection-periapsis", atol=2 * t * o.a, ctx=ct)
    R.near(O.r_apoapsis_orbiter_defl, o.ra, "deflection-apoapsis", atol=2 * t * o.a, ctx=ct)
    plane(R, O, o, "_orbiter_defl", ct)
    D = arrays(O, ("x_orbiter_defl_arr", "y_orbiter_defl_arr", "z_orbiter_defl_arr"), RP)
    R.ok(num is None or len(D) == num, "deflection-samples-count", lambda: f"{ct} {num} points asked, {len(D)} given")
    f = np.linspace(0, 2 * np.pi, len(D))
    r = (o.p / (1 + o.e * np.cos(f)))[:, None]
    tr = 1e-6 + 20 * t
    R.evals += 1
    if len(D) < 3 or np.any(np.abs(D - o.at(f)[0]) > tr * r):
        # the capture orbit's argument of periapsis, measured from the deflected orbit's own node in its plane
        N = np.asarray(O.N_vec_bi_unit_orbiter_defl, float); M = np.cross(o.Hu, N)
        u = (f + O.omega)[:, None]
        if len(D) >= 3 and np.all(np.abs(D - r * (np.cos(u) * N + np.sin(u) * M)) <= tr * r):
            once(R, K_DEF, f"deflected orbit samples {ct}")
        else:
            R.fail("deflection-samples", f"{ct} {D[0].tolist()} instead of {o.at(0.0)[0].tolist()}")
    R.state(ct)
