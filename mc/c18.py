"""C18: approach hyperbolas. Full product of body, excess velocity, periapsis, B-plane angle and interface altitude, every construction compared with an independent vector two-body oracle, and every
orbit sampled along its whole true-anomaly range."""
import numpy as np
from . import ref
PID, LEVEL = "C18", "exploration"
RULE = ("full product body x excess-velocity direction (ICRF axes and diagonals, the body's own axes, directions near its pole and in its equator) x magnitude x periapsis radius x B-plane angle (dense grid, "
        "angles that put periapsis on the node, exactly and nearly equatorial orbits) x {orbiter, entry system with three interface altitudes}; on each hyperbola a grid of true anomalies over the whole open range; "
        "distinct = constructed approaches")
ASSUME = ["excess velocity at least 1e-3 rad away from the spin axis (the B-plane frame is undefined there); for orbits within 1e-5 rad of equatorial the node is not judged, the positions and velocities are",
          "for an entry system, periapsis strictly inside the entry interface"]
CHUNK = 1
KNOWN = "heading-arccos-of-unnormalised-projection"
NPSI = 16
MAGS = [1.0, 3.3, 9.0, 25.0]
RPS = [0.3, 0.995, 1.02, 2.5, 40.0]              # of the planet radius
EI = {"VENUS": 150e3, "EARTH": 125e3, "MARS": 120e3, "JUPITER": 1000e3, "SATURN": 1000e3, "TITAN": 1000e3, "URANUS": 1000e3, "NEPTUNE": 1000e3}


def dirs(body, tier):
    M = ref.icrf_to_bi(np.radians(ref.CONST[body][7]), np.radians(ref.CONST[body][8]))
    out = []
    for x in (-1, 0, 1):
        for y in (-1, 0, 1):
            for z in (-1, 0, 1):
                if (x, y, z) != (0, 0, 0) and (tier == "thorough" or sum(map(abs, (x, y, z))) != 2 or x + y + z > 0):
                    out.append((f"icrf{x}{y}{z}", np.array([x, y, z], float)))
    bi = [(1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0), (1, 1, 0), (-1, 1, 0.3), (0.01, 0, 1), (0, -0.002, -1), (1, 0, 1e-6), (-0.6, 0.8, -0.4)]
    for v in bi:
        out.append(("bi%g,%g,%g" % v, M.T @ np.array(v, float)))
    return [(n, v / np.linalg.norm(v)) for n, v in out]


def cases(tier):
    return [dict(body=b, d=n, tier=tier) for b in ref.BODIES for n, _ in dirs(b, tier)]


def oracle(C, Sicrf, vinf, rp, psi):
    """everything about the hyperbola from first principles (body-inertial vectors)"""
    GM = C["GM"]
    M = ref.icrf_to_bi(C["a0"], C["d0"])
    S = M @ Sicrf
    a = -GM / vinf**2; e = 1 - rp / a
    th = psi + np.pi / 2
    T = np.cross(S, [0, 0, 1.0]); T /= np.linalg.norm(T)
    Rr = np.cross(S, T)
    B = np.cos(th) * T + np.sin(th) * Rr
    b = abs(a) * np.sqrt(e * e - 1)
    beta = np.arccos(1 / e)
    P = np.cos(beta) * S + np.sin(beta) * B       # periapsis direction
    H = np.cross(B, S)
    Q = np.cross(H, P)
    p = a * (1 - e * e)
    return dict(S=S, T=T, R=Rr, B=B, b=b, th=th, a=a, e=e, beta=beta, P=P, H=H, Q=Q, p=p, GM=GM, h=b * vinf)


def at(o, f):
    f = np.asarray(f, float)[..., None]
    r = o["p"] / (1 + o["e"] * np.cos(f))
    X = r * (np.cos(f) * o["P"] + np.sin(f) * o["Q"])
    V = np.sqrt(o["GM"] / o["p"]) * (-np.sin(f) * o["P"] + (o["e"] + np.cos(f)) * o["Q"])
    return X, V


def angle(R, got, want, sig, tol, ctx):
    """equal modulo a full turn"""
    d = (np.asarray(got, float) - want + np.pi) % (2 * np.pi) - np.pi
    return R.near(d, 0.0, sig, atol=tol, ctx=ctx)


def common(R, A, o, v, vinf, rp, psi, ctx):
    S = o["S"]
    R.near(A.v_inf_mag_kms, vinf / 1e3, "v-inf", rtol=1e-12, ctx=ctx)
    R.near(A.v_inf_mag, vinf, "v-inf", rtol=1e-12, ctx=ctx)
    R.near(A.v_inf_vec_bi_kms, S * vinf / 1e3, "v-inf", atol=1e-12 * vinf, ctx=ctx)
    R.near(A.v_inf_vec_bi, S * vinf, "v-inf", atol=1e-11 * vinf, ctx=ctx)
    R.near(A.v_inf_vec_bi_mag_kms, vinf / 1e3, "v-inf", rtol=1e-12, ctx=ctx)
    R.near(A.v_inf_vec_bi_unit, S, "v-inf", atol=1e-12, ctx=ctx)
    for k in ("a", "e", "beta", "h"):
        R.near(getattr(A, k), o[k], "element-" + k, rtol=1e-9, ctx=ctx)
    R.near(A.phi_2, A.phi_2_analytic, "phi2", atol=1e-9, ctx=ctx)
    R.near([np.cos(A.phi_1) * np.sin(A.phi_2), np.sin(A.phi_1) * np.sin(A.phi_2), np.cos(A.phi_2)], S, "phi", atol=1e-9, ctx=ctx)
    # second-primed frame: proper rotation taking the asymptote to +z
    D = np.array([A.BI_to_BI_dprime(x) for x in np.eye(3)]).T
    R.near(D @ D.T, np.eye(3), "dprime-orthonormal", atol=1e-12, ctx=ctx)
    R.near(np.linalg.det(D), 1.0, "dprime-orthonormal", atol=1e-12, ctx=ctx)
    R.near(D @ S, [0, 0, 1.0], "dprime-asymptote", atol=1e-10, ctx=ctx)
    # periapsis
    t = 1e-9
    R.near(A.rp_vec_bi_unit, o["P"], "periapsis-direction", atol=t, ctx=ctx)
    R.near(A.rp_vec_bi, rp * o["P"], "periapsis-vector", atol=t * rp, ctx=ctx)
    R.near(A.rp_vec_bi_dprime, D @ o["P"] * rp, "periapsis-dprime", atol=t * rp, ctx=ctx)
    R.near(A.rp_vec_bi_dprime_analytic, D @ o["P"] * rp, "periapsis-dprime", atol=t * rp, ctx=ctx)
    R.near(A.e_vec_bi, o["e"] * o["P"], "eccentricity-vector", atol=t * o["e"], ctx=ctx)
    R.near(A.e_vec_bi_unit, o["P"], "eccentricity-vector", atol=t, ctx=ctx)
    R.near(A.h_vec_bi_unit, o["H"], "plane", atol=t, ctx=ctx)
    R.near(np.dot(A.h_vec_bi_unit, A.e_vec_bi_unit), 0, "plane", atol=t, ctx=ctx)
    # B-plane
    R.near(A.S_vec_bi_unit, S, "b-plane-frame", atol=t, ctx=ctx)
    R.near(A.T_vec_bi_unit, o["T"], "b-plane-frame", atol=1e-8, ctx=ctx)
    R.near(A.R_vec_bi_unit, o["R"], "b-plane-frame", atol=1e-8, ctx=ctx)
    R.near(A.T_vec_bi_unit_dprime, D @ o["T"], "b-plane-dprime", atol=1e-8, ctx=ctx)
    R.near(A.R_vec_bi_unit_dprime, D @ o["R"], "b-plane-dprime", atol=1e-8, ctx=ctx)
    R.near(A.b_mag, o["b"], "b-magnitude", rtol=1e-9, ctx=ctx)
    angle(R, A.b_plane_angle_theta, o["th"], "b-angle", 1e-12, ctx)
    R.near(A.B_vec_bi_unit, o["B"], "b-vector", atol=1e-8, ctx=ctx)
    R.near(np.cos(A.b_plane_angle_theta) * A.T_vec_bi_unit + np.sin(A.b_plane_angle_theta) * A.R_vec_bi_unit, A.B_vec_bi_unit, "b-vector", atol=1e-8, ctx=ctx)
    # orientation angles
    R.near(np.cos(A.i), o["H"][2], "inclination", atol=1e-9, ctx=ctx)
    R.ok(0 <= A.i <= np.pi, "inclination", ctx)
    n = np.array([-o["H"][1], o["H"][0], 0.0]); s = np.linalg.norm(n); n = n / max(s, 1e-300)
    if s < 1e-5:        # equatorial to rounding: the node is arbitrary, but the orbit it describes is not
        return D, 1e-7
    R.near(A.N_vec_bi_unit, n, "node", atol=1e-9 / s, ctx=ctx)
    angle(R, A.OMEGA, np.arctan2(n[1], n[0]), "node-angle", 1e-7 + 1e-9 / s, ctx)
    angle(R, A.omega, np.arctan2(np.dot(np.cross(n, o["P"]), o["H"]), np.dot(n, o["P"])), "periapsis-argument", 1e-7 + 1e-9 / s, ctx)
    return D, 1e-7 + 3e-9 / s


def orbit(R, A, o, D, tol, ctx, grid):
    finf = np.pi - o["beta"]
    f = np.concatenate([finf * np.asarray(grid)])
    X, V = at(o, f)
    for k, x in enumerate(f):
        r = np.linalg.norm(X[k]); v = np.linalg.norm(V[k])
        got = A.pos_vec_bi(x); gv = A.vel_vec_bi(x)
        R.near(got, X[k], "position", atol=tol * r + 1e-8 * r, ctx=lambda: f"{ctx} at true anomaly {x}")
        R.near(A.r_mag_bi(x), r, "radius", rtol=1e-8, ctx=ctx)
        R.near(gv, V[k], "velocity", atol=tol * v, ctx=lambda: f"{ctx} at true anomaly {x}")
        R.near(A.pos_vec_bi_dprime(x), D @ X[k], "position-dprime", atol=(tol + 1e-8) * r, ctx=ctx)
    R.step(len(f))


def entry(R, A, o, C, h_EI, tol, ctx):
    rE = C["RP"] + h_EI
    cf = (o["p"] / rE - 1) / o["e"]
    f = -np.arccos(cf)
    cond = 1 + 1e-8 / max(abs(np.sin(f)), 1e-12) / tol     # sensitivity of the anomaly to rounding close to periapsis
    t = tol * min(cond, 1e6)
    X, V = at(o, f)
    r, v = np.linalg.norm(X), np.linalg.norm(V)
    R.near(A.r_EI, rE, "interface-radius", rtol=1e-12, ctx=ctx)
    R.near(A.theta_star_entry, f, "entry-anomaly", atol=t, ctx=ctx)
    R.near(A.r_vec_entry_bi, X, "entry-position", atol=2 * t * r, ctx=ctx)
    R.near(A.r_vec_entry_bi_unit, X / r, "entry-position", atol=2 * t, ctx=ctx)
    R.near(A.r_vec_entry_bi_mag, rE, "entry-radius", rtol=1e-7, ctx=ctx)
    R.near(A.v_entry_inertial_mag, v, "entry-speed", rtol=1e-9, ctx=ctx)
    R.near(A.v_vec_entry_bi, V, "entry-velocity", atol=2 * t * v, ctx=ctx)
    R.near(A.v_vec_entry_bi_unit, V / v, "entry-velocity", atol=2 * t, ctx=ctx)
    g = np.arcsin(np.dot(X, V) / r / v)
    R.near(A.gamma_entry_inertial, g, "entry-angle", atol=3 * t, ctx=ctx)
    R.near(A.gamma_entry_inertial_check, g, "entry-angle", atol=3 * t, ctx=ctx)
    R.ok(A.gamma_entry_inertial <= 1e-9, "inbound", ctx)
    lat, lon = np.arcsin(X[2] / r), np.arctan2(X[1], X[0])
    cl = np.hypot(X[0], X[1]) / r
    R.near(A.latitude_entry_bi, lat, "latitude", atol=3 * t / max(cl, 1e-3), ctx=ctx)
    if cl > 1e-6:
        angle(R, A.longitude_entry_bi, lon, "longitude", 3 * t / cl, ctx)
        # the redundant latitude is unsigned in the quadrant of its auxiliary longitude: it must agree wherever it is formed with a regular quotient
        if abs(X[0]) / r > 1e-6:
            R.near(abs(A.latitude_entry_bi_analytic), abs(lat), "latitude-analytic", atol=5 * t / max(1e-3, min(cl, abs(X[0]) / r)), ctx=ctx)
    W = V - np.cross([0, 0, C["OMEGA"]], X)
    w = np.linalg.norm(W)
    R.near(A.v_vec_entry_atm, W, "relative-velocity", atol=3 * t * v, ctx=ctx)
    R.near(A.v_entry_atm_mag, w, "relative-speed", atol=3 * t * v, ctx=ctx)
    R.near(A.v_vec_entry_atm_unit, W / w, "relative-velocity", atol=5 * t * v / w, ctx=ctx)
    ga = np.arcsin(np.dot(X, W) / r / w)
    R.near(A.gamma_entry_atm, ga, "relative-angle", atol=5 * t * v / w + 1e-8, ctx=ctx)
    if cl > 1e-4:
        east = np.array([-X[1], X[0], 0]) / (cl * r); north = np.cross(X / r, east)
        hd = np.arctan2(np.dot(W, north), np.dot(W, east))
        hz = np.cos(ga)
        R.near(A.v_vec_entry_atm_unit_proj, (W - np.dot(W, X) * X / r**2) / w, "horizontal-projection", atol=1e-6 + 5 * t * v / w, ctx=ctx)
        R.near(A.local_latitude_parallel_vec_unit, east, "east", atol=3 * t / cl, ctx=ctx)
        if hz > 1e-6:
            tt = 1e-6 + 50 * t * v / w / cl / hz
            d = (A.heading_entry_atm - hd + np.pi) % (2 * np.pi) - np.pi
            if abs(d) > np.sqrt(tt):
                pinned = np.arccos(np.clip(hz * np.cos(hd), -1, 1))
                if abs(A.heading_entry_atm - pinned) < np.sqrt(tt):
                    if not any(q[0] == KNOWN for q in R.problems):
                        R.fail(KNOWN, f"heading {A.heading_entry_atm} instead of {hd} {ctx}")
                else:
                    R.fail("heading", f"heading {A.heading_entry_atm} instead of {hd} {ctx}")
            R.evals += 1


def run(c, R):
    from AMAT.approach import Approach
    b = c["body"]
    k = ref.CONST[b]
    p = ref.mk_planet(b, load=False)
    C = dict(RP=k[0], OMEGA=k[1], GM=k[2], a0=np.radians(k[7]), d0=np.radians(k[8]))
    full = c["tier"] == "thorough"
    d = dict(dirs(b, c["tier"]))[c["d"]]
    psis = [2 * np.pi * j / NPSI for j in range(NPSI)] + [-1.0, 7.0, 10.5, -4.0]
    grid = [-0.999, -0.9, -0.5, -0.25, -1e-3, 0.0, 1e-7, 0.1, 0.5, 0.75, 0.95, 0.999]
    ctx = ""
    for vi in MAGS + ([0.3, 60.0] if full else []):
        v = d * vi
        for m in RPS + ([0.8, 1.2, 8.0] if full else []):
            rp = m * C["RP"]
            S = ref.icrf_to_bi(C["a0"], C["d0"]) @ d
            o0 = oracle(C, d, vi * 1e3, rp, 0.0)
            # angles that put periapsis exactly on the node, and nearly equatorial planes
            more = []
            q = np.cos(o0["beta"]) * S[2] / (np.sin(o0["beta"]) * np.hypot(S[0], S[1]))
            if abs(q) <= 1:
                more += [np.arccos(q), -np.arccos(q)]
            if abs(S[2]) < 1e-3:
                more += [np.pi / 2 + 1e-4, -np.pi / 2 - 1e-4]
            for psi in psis + more:
                o = oracle(C, d, vi * 1e3, rp, psi)
                if np.hypot(S[0], S[1]) < 1e-3:
                    continue
                ctx = f"{b} v_inf {v.tolist()} rp {rp} psi {psi}"
                keep = v.copy()
                A = Approach(b, v, rp, psi); R.step()
                D, tol = common(R, A, o, v, vi * 1e3, rp, psi, ctx)
                if psi in psis[::3] or psi in more or full:
                    orbit(R, A, o, D, tol, ctx, grid)
                X, V = at(o, 0.0)
                R.near(A.theta_star_periapsis, 0.0, "periapsis-anomaly", atol=1e-12, ctx=ctx)
                R.near(A.r_vec_rp_bi, X, "periapsis-state", atol=1e-9 * rp, ctx=ctx)
                R.near(A.v_vec_rp_bi, V, "periapsis-state", atol=2 * tol * np.linalg.norm(V), ctx=ctx)
                R.ok(np.array_equal(v, keep), "input-changed", ctx)
                R.state(b, c["d"], vi, m, psi)
                for h in (EI[b], 0.3 * EI[b], C["RP"]):
                    if rp < (C["RP"] + h) * (1 - 1e-6):
                        E = Approach(b, v, rp, psi, is_entrySystem=True, h_EI=h); R.step()
                        ct = f"{ctx} h_EI {h}"
                        if h == EI[b]:
                            D, tol = common(R, E, o, v, vi * 1e3, rp, psi, ct)
                            R.near(E.pos_vec_bi(0.1), at(o, 0.1)[0], "position", atol=(tol + 1e-8) * 1.1 * rp * 3, ctx=ct)
                        entry(R, E, o, C, h, tol, ct)
                        R.state(b, c["d"], vi, m, psi, h)
                        R.outcome(b, round(float(E.gamma_entry_inertial), 5), round(float(E.longitude_entry_bi), 4))
                if len(R.problems) >= 40:
                    return
    R.sample = dict(case=c, last=ctx)
