"""C21: the propulsive orbiter. Approaches x target apoapses, insertion burn and orbit samples against Cartesian two-body mechanics; timed orbits over every (duration, number of points) of a grid, each sample
checked against Kepler's equation solved independently by bisection."""
import numpy as np
from . import ref, c18
from .c20 import Orb, arrays
PID, LEVEL = "C21", "exploration"
RULE = ("full product body x excess velocity x periapsis x B-plane angle x apoapsis (circular to 20000 periapsis radii) and, on each orbit, true anomalies over two turns; timed orbits: product of eccentricity "
        "(through the apoapsis) x duration (fractions and multiples of a period up to 40) x number of points; distinct = orbits and timed orbits")
ASSUME = ["target apoapsis at or above the approach periapsis", "excess velocity at least 1e-3 rad away from the spin axis"]
CHUNK = 1
APO = [1.0, 1.0001, 1.3, 4.0, 30.0, 300.0, 2000.0, 20000.0]     # of the periapsis radius


def cases(tier):
    out = []
    for b in ref.BODIES:
        for d in [(1, 0.4, 0.1), (-0.5, 0.8, 0.35), (0.2, -0.3, 0.9), (0.0, -1.0, 0.0), (-0.6, -0.5, -0.6)]:
            out.append(dict(body=b, d=d, tier=tier))
    return out


def solve_kepler(M, e):
    """bracketed: E - e sin E = M"""
    M = np.asarray(M, float)
    lo, hi = M - e - 1e-9, M + e + 1e-9
    for _ in range(200):
        E = (lo + hi) / 2
        neg = E - e * np.sin(E) < M
        lo, hi = np.where(neg, E, lo), np.where(neg, hi, E)
    return (lo + hi) / 2


def run(c, R):
    from AMAT.approach import Approach
    from AMAT.orbiter import PropulsiveOrbiter
    b = c["body"]; k = ref.CONST[b]
    full = c["tier"] == "thorough"
    C = dict(RP=k[0], OMEGA=k[1], GM=k[2], a0=np.radians(k[7]), d0=np.radians(k[8]))
    GM, RP = C["GM"], C["RP"]
    d = np.array(c["d"]); d = d / np.linalg.norm(d)
    j = 0
    for vi in (2.0, 11.0):
        for m in (1.05, 1.6, 12.0):
            for psi in [2 * np.pi * q / 8 for q in range(8)] + [0.3]:
                o = c18.oracle(C, d, vi * 1e3, m * RP, psi)
                A = Approach(b, d * vi, m * RP, psi)
                Xp, Vp = c18.at(o, 0.0)
                for q in APO:
                    j += 1
                    ra = q * m * RP
                    alt = (ra - RP) / 1e3
                    ctx = f"{b} v_inf {(d * vi).tolist()} rp {m}RP psi {psi} apoapsis {alt} km"
                    O = PropulsiveOrbiter(A, alt); R.step()
                    w = Orb.from_apses(GM, m * RP, ra, o["P"], o["H"])
                    w.a, w.e, w.P = (m * RP + ra) / 2, (ra - m * RP) / (ra + m * RP), o["P"]; w.Q = np.cross(o["H"], o["P"])
                    one(R, O, w, o, A, Vp, C, m * RP, ra, ctx)
                    R.state(b, c["d"], vi, m, psi, q); R.outcome(b, round(float(O.DV_OI_mag), 4))
                    if j % 7 == int(psi * 1.3) % 7 or full:
                        timed(R, O, w, RP, ctx, full)
                    if len(R.problems) >= 40:
                        return
    R.sample = dict(case=c, last=ctx)


def one(R, O, w, o, A, Vp, C, rp, ra, ctx):
    GM, RP = C["GM"], C["RP"]
    t = 2e-7
    R.near(O.rp, rp, "periapsis-kept", rtol=1e-12, ctx=ctx)
    R.near(O.ra, ra, "apoapsis", rtol=1e-12, ctx=ctx)
    R.near(O.a, (ra + rp) / 2, "a", rtol=1e-12, ctx=ctx)
    R.near(O.e, (ra - rp) / (ra + rp), "e", atol=1e-12, ctx=ctx)
    R.near(O.h, w.h, "h", rtol=1e-9, ctx=ctx)
    for n in ("i", "OMEGA", "omega"):
        R.near(getattr(O, n), getattr(A, n), "plane-kept", atol=1e-12, ctx=ctx)
    R.near(O.approach_terminal_r, o["P"] * rp, "arrival-state", atol=t * rp, ctx=ctx)
    vp = np.linalg.norm(Vp)
    R.near(O.approach_terminal_v, Vp, "arrival-state", atol=t * vp, ctx=ctx)
    vo = np.sqrt(GM * (2 / rp - 2 / (ra + rp)))
    R.near(O.vp_vec, vo * w.Q, "orbit-periapsis-velocity", atol=t * vo, ctx=ctx)
    R.near(O.vp, vo, "orbit-periapsis-velocity", rtol=1e-9, ctx=ctx)
    R.near(O.vp_check, vo, "orbit-periapsis-velocity", rtol=1e-9, ctx=ctx)
    R.near(O.DV_OI_vec, Vp - vo * w.Q, "insertion-burn", atol=t * vp, ctx=ctx)
    R.near(O.DV_OI_mag, vp - vo, "insertion-burn", atol=1e-9 * vp, ctx=ctx)
    R.near(O.DV_OI_mag_check, vp - vo, "insertion-burn", atol=1e-9 * vp, ctx=ctx)
    S = arrays(O, ("x_orbit_arr", "y_orbit_arr", "z_orbit_arr"), RP)
    f = np.linspace(0, 2 * np.pi, len(S))
    X = w.at(f)[0]; r = np.linalg.norm(X, axis=1)
    cond = 1 + ra / rp
    R.ok(len(S) >= 3 and np.all(np.abs(S - X) <= (t + 1e-14 * cond) * r[:, None]), "orbit-samples", lambda: f"{ctx} worst {np.max(np.abs(S - X) / r[:, None])}")
    num = (2, 3, 7, 48, 720)[int(ra / rp * 7 + rp / RP) % 5]
    O.compute_orbit_trajectory(num_points=num); R.step()
    S = arrays(O, ("x_orbit_arr", "y_orbit_arr", "z_orbit_arr"), RP)
    X = w.at(np.linspace(0, 2 * np.pi, num))[0]; r = np.linalg.norm(X, axis=1)
    R.ok(S.shape == X.shape and np.all(np.abs(S - X) <= (t + 1e-14 * cond) * r[:, None]), "orbit-samples-count", lambda: f"{ctx} {num} points {S.shape}")
    for g in (0.0, 1e-3, 1.3, np.pi / 2, 3.0, np.pi, 3.5, 5.9, 2 * np.pi, 8.0, -2.0):
        X, V = w.at(g); r, v = np.linalg.norm(X), np.linalg.norm(V)
        tc = t + 1e-13 * cond
        R.near(O.pos_vec_bi(g), X, "position", atol=tc * r, ctx=lambda: f"{ctx} at {g}")
        R.near(O.r_mag_bi(g), r, "radius", rtol=tc, ctx=ctx)
        R.near(O.vel_vec_bi(g), V, "velocity", atol=tc * v, ctx=lambda: f"{ctx} at {g}")


def timed(R, O, w, RP, ctx, full):
    T = 2 * np.pi * np.sqrt(w.a**3 / w.GM)
    for x in (0.01, 0.37, 0.5, 1.0, 2.25, 5.5) + ((40.0, 13.7) if full else (40.0,)):
        for n in (2, 7, 101) if full or x != 40.0 else (101,):
            t = x * T
            O.compute_timed_orbit_trajectory(t, n); R.step()
            ct = f"{ctx} timed {x} periods {n} points"
            ts = np.linspace(0, t, n)
            M = 2 * np.pi * ts / T
            e = w.e
            E = solve_kepler(M, e)
            R.near(O.P, T, "period", rtol=1e-9, ctx=ct)
            R.near(O.t_array, ts, "times", rtol=1e-12, ctx=ct)
            w2 = lambda x: (x + np.pi) % (2 * np.pi) - np.pi     # whole turns are not judged
            Eg = np.asarray(O.E_array, float); Mg = np.asarray(O.M_array, float)
            if not R.ok(Eg.shape == Mg.shape == (n,), "timed-shape", ct):
                continue
            R.near(w2(Mg - M), np.zeros(n), "mean-anomaly", atol=1e-9 * max(1, M[-1]), ctx=ct)
            Et = 1e-6 + 1e-8 / (1 - e)
            R.near(w2(Eg - E), np.zeros(n), "kepler", atol=Et, ctx=lambda: f"{ct} e={e}")
            R.near(w2(Eg - e * np.sin(Eg) - M), np.zeros(n), "kepler-residual", atol=1e-6, ctx=lambda: f"{ct} e={e}")
            X = w.a * ((np.cos(E) - e)[:, None] * w.P + np.sqrt(1 - e * e) * np.sin(E)[:, None] * w.Q)
            S = arrays(O, ("x_timed_orbit_arr", "y_timed_orbit_arr", "z_timed_orbit_arr"), RP)
            R.near(S, X, "timed-positions", atol=4 * w.a * Et, ctx=lambda: f"{ct} e={e}")
            f = 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))
            dm = (np.asarray(O.theta_star_array, float) - f + np.pi) % (2 * np.pi) - np.pi
            R.near(dm, np.zeros(n), "timed-anomaly", atol=10 * Et / np.sqrt(1 - e), ctx=lambda: f"{ct} e={e}")
            R.state(ctx, x, n)
