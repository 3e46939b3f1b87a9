"""C19: deflection manoeuvres. Full product of body, excess velocity, both targets and separation distance; every reported velocity is checked against two-body conditions (position on the inbound leg, energy,
plane, passage through the target periapsis after the reported time of flight) and against an independent terminal-velocity construction."""
import numpy as np
from . import ref, c18
PID, LEVEL = "C19", "exploration"
RULE = ("full product of manoeuvre class x body x excess velocity (direction, magnitude) x periapsis radii of both targets (equal, ordered both ways) x both B-plane angles x separation distance; includes "
        "coincident targets; distinct = manoeuvres")
ASSUME = ["separation outside both periapses and at least twice the semi-major axis away, so that both targets are reached by less than half a revolution",
          "excess velocity at least 1e-3 rad away from the spin axis"]
CHUNK = 1
PINNED = "probe2-velocity-from-its-own-anomaly"
DIRS = [(1, 0.4, 0.1), (-0.5, 0.8, 0.35), (0.2, -0.3, 0.9), (0.0, -1.0, 0.0), (-0.6, -0.5, -0.6)]
DIRS_T = [(0.002, 0.001, 1.0), (0.3, 0.9, -0.9), (-1.0, 0.0, 0.01)]
MAGS = [5.0, 20.0]
RDV = [2.5, 14.0, 60.0, 1000.0, 6000.0]


def cases(tier):
    out = []
    for kind in ("PO", "PP", "OO"):
        for b in ref.BODIES:
            for j, d in enumerate(DIRS + (DIRS_T if tier == "thorough" else [])):
                out.append(dict(kind=kind, body=b, d=d, tier=tier))
    return out


def hyp_time(GM, a, e, f):
    """time from periapsis at true anomaly f on a hyperbola"""
    F = 2 * np.arctanh(np.sqrt((e - 1) / (e + 1)) * np.tan(f / 2))
    return np.sqrt(abs(a)**3 / GM) * (e * np.sinh(F) - F)


def terminal(GM, a, r1, r2):
    """velocity at r1 of the hyperbola of semi-major axis -|a| that reaches r2 in less than half a revolution (chord/radial components)"""
    n1, n2 = np.linalg.norm(r1), np.linalg.norm(r2)
    c = np.linalg.norm(r2 - r1); s = (n1 + n2 + c) / 2
    # s - c = n1 n2 (1+cos)/(2 s): form it without cancellation
    sc = (n1 * n2 + np.dot(r1, r2)) / (2 * s)
    al = 2 * np.arcsinh(np.sqrt(s / (2 * abs(a)))); be = 2 * np.arcsinh(np.sqrt(sc / (2 * abs(a))))
    q = np.sqrt(GM / (4 * abs(a)))
    A, B = q / np.tanh(al / 2), q / np.tanh(be / 2)
    tof = np.sqrt(abs(a)**3 / GM) * ((np.sinh(al) - al) - (np.sinh(be) - be))
    return (B + A) * (r2 - r1) / c + (B - A) * r1 / n1, tof


def physics(R, GM, vinf, X, V, target, tof, cond, ctx, sig):
    """(X,V) is on a two-body trajectory with the arrival energy which passes through the target point after tof"""
    r = np.linalg.norm(X); v = np.linalg.norm(V)
    R.near(v * v / 2 - GM / r, vinf**2 / 2, sig + "-energy", atol=1e-7 * cond * v * v, ctx=ctx)
    H = np.cross(X, V); h = np.linalg.norm(H)
    rt = np.linalg.norm(target)
    R.near(np.dot(H, target) / h / rt, 0, sig + "-plane", atol=1e-6 * cond, ctx=ctx)
    R.ok(np.dot(X, V) < 0, sig + "-inbound", ctx)
    E = np.cross(V, H) / GM - X / r
    e = np.linalg.norm(E); p = h * h / GM; a = -1 / (2 / r - v * v / GM)
    f = lambda Y: np.arctan2(np.dot(np.cross(E, Y), H) / h, np.dot(E, Y))
    f1, f2 = f(X), f(target)
    R.near(p / (1 + e * np.cos(f2)), rt, sig + "-passage", rtol=1e-5 * cond, ctx=ctx)
    if f2 > f1:
        R.near(tof * 86400, hyp_time(GM, a, e, f2) - hyp_time(GM, a, e, f1), sig + "-flight-time", rtol=1e-5 * cond, ctx=ctx)


def run(c, R):
    from AMAT.maneuver import ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection
    b, kind = c["body"], c["kind"]
    k = ref.CONST[b]
    C = dict(RP=k[0], OMEGA=k[1], GM=k[2], a0=np.radians(k[7]), d0=np.radians(k[8]))
    d = np.array(c["d"]); d = d / np.linalg.norm(d)
    full = c["tier"] == "thorough"
    h_EI = c18.EI[b]
    top = 1 + h_EI / C["RP"]
    ins, outs = [0.6, 0.99], [1.3, 6.0]
    first = ins if kind in ("PO", "PP") else outs
    second = outs + ([0.99] if kind == "PO" else []) if kind in ("PO", "OO") else ins
    P1 = [2 * np.pi * j / (8 if full else 4) + 0.2 for j in range(8 if full else 4)]
    P2 = [2 * np.pi * j / (8 if full else 6) + 0.2 for j in range(8 if full else 6)]
    ctx = ""
    for vi in MAGS + ([50.0] if full else []):
        vinf = vi * 1e3
        v = d * vi
        a = C["GM"] / vinf**2
        for m1 in first:
            for m2 in second:
                for psi1 in P1:
                    for psi2 in sorted(set(P2 + [psi1])):
                        for n in RDV:
                            r = n * C["RP"]
                            if r < 2 * a or r < 2 * max(m1, m2) * C["RP"]:
                                continue
                            ctx = f"{kind} {b} v_inf {v.tolist()} {m1}@{psi1} {m2}@{psi2} r_dv {n}"
                            o1, o2 = (c18.oracle(C, d, vinf, m * C["RP"], ps) for m, ps in ((m1, psi1), (m2, psi2)))
                            f1 = -np.arccos((o1["p"] / r - 1) / o1["e"])
                            X, V1 = c18.at(o1, f1)
                            T1, T2 = m1 * C["RP"] * o1["P"], m2 * C["RP"] * o2["P"]
                            w1, t1 = terminal(C["GM"], o1["a"], X, T1)
                            w2, t2 = terminal(C["GM"], o2["a"], X, T2)
                            D1 = np.arccos(np.dot(X, T1) / r / np.linalg.norm(T1)); D2 = np.arccos(np.dot(X, T2) / r / np.linalg.norm(T2))
                            cond = 1 + 1 / np.sin(D1)**2 + 1 / np.sin(D2)**2
                            vm = np.linalg.norm(V1)
                            tol = 1e-8 * cond * vm
                            R.near(w1, V1, "oracle-self-check", atol=tol, ctx=ctx)
                            kw = dict(r_dv_rp=n)
                            if kind == "PO":
                                x = ProbeOrbiterDeflection(b, v, m1 * C["RP"], psi1, h_EI, m2 * C["RP"], psi2, n)
                                g1, g2, u1, u2, A1, A2 = x.v_vec_dv_probe, x.v_vec_dv_space, x.TOF_probe, x.TOF_space, x.probe, x.space
                                R.near(x.theta_star_dv_probe, f1, "separation-anomaly", atol=1e-7, ctx=ctx)
                                R.near(abs(x.delta_theta_star_probe), abs(f1), "transfer-angle", atol=1e-7, ctx=ctx)
                                R.near(x.delta_theta_star_space, D2, "transfer-angle", atol=1e-7 * cond, ctx=ctx)
                            elif kind == "PP":
                                x = ProbeProbeDeflection(b, v, m1 * C["RP"], psi1, h_EI, m2 * C["RP"], psi2, h_EI * 0.9, n)
                                g1, g2, u1, u2, A1, A2 = x.v_vec_dv_probe1, x.v_vec_dv_probe2, x.TOF_probe1, x.TOF_probe2, x.probe1, x.probe2
                                R.near(x.theta_star_dv_probe1, f1, "separation-anomaly", atol=1e-7, ctx=ctx)
                                R.near(A2.r_EI, C["RP"] + 0.9 * h_EI, "second-interface", rtol=1e-12, ctx=ctx)
                                f2 = -np.arccos((o2["p"] / r - 1) / o2["e"])
                                R.near(x.theta_star_dv_probe2, f2, "separation-anomaly", atol=1e-7, ctx=ctx)
                            else:
                                x = OrbiterOrbiterDeflection(b, v, m1 * C["RP"], psi1, m2 * C["RP"], psi2, n)
                                g1, g2, u1, u2, A1, A2 = x.v_vec_dv_space1, x.v_vec_dv_space2, x.TOF_space1, x.TOF_space2, x.space1, x.space2
                                R.near(x.theta_star_dv_space1, f1, "separation-anomaly", atol=1e-7, ctx=ctx)
                                R.near(x.delta_theta_star_space1, D1, "transfer-angle", atol=1e-7 * cond, ctx=ctx)
                                R.near(x.delta_theta_star_space2, D2, "transfer-angle", atol=1e-7 * cond, ctx=ctx)
                            R.step()
                            R.near(x.r_dv, r, "separation-distance", rtol=1e-12, ctx=ctx)
                            R.near(x.r_vec_dv, X, "separation-position", atol=1e-7 * r, ctx=ctx)
                            R.near(x.r_vec_dv_unit, X / r, "separation-position", atol=1e-7, ctx=ctx)
                            for A, m, ps, e in ((A1, m1, psi1, kind != "OO"), (A2, m2, psi2, kind == "PP")):
                                R.ok(A.rp == m * C["RP"] and A.psi == ps, "targets", ctx)
                                R.ok(hasattr(A, "r_vec_entry_bi") == e, "target-kind", ctx)
                                R.near(A.v_inf_vec_icrf_kms, v, "targets", rtol=1e-12, ctx=ctx)
                            if kind != "OO":
                                R.near(A1.r_EI, C["RP"] + h_EI, "first-interface", rtol=1e-12, ctx=ctx)
                            R.near(g1, V1, "velocity-before", atol=tol, ctx=ctx)
                            R.near(u1 * 86400, -hyp_time(C["GM"], o1["a"], o1["e"], f1), "flight-time-before", rtol=1e-7 * cond, ctx=ctx)
                            if kind == "PP":
                                if np.all(np.abs(g2 - w2) <= tol):
                                    physics(R, C["GM"], vinf, X, g2, T2, u2, cond * np.sqrt(n), ctx, "after")
                                else:
                                    # what the pinned test computes: probe 2's own anomaly at this distance, but probe 1's position
                                    p2 = o2["p"]; D = abs(f2); rp2 = m2 * C["RP"]
                                    ff = 1 - rp2 / p2 * (1 - np.cos(D)); gg = r * rp2 * np.sin(D) / np.sqrt(C["GM"] * p2)
                                    if np.all(np.abs(g2 - (T2 - ff * X) / gg) <= tol):
                                        if not any(q[0] == PINNED for q in R.problems):
                                            R.fail(PINNED, f"velocity after {g2.tolist()} instead of {w2.tolist()} {ctx}")
                                        R.near(u2 * 86400, -hyp_time(C["GM"], o2["a"], o2["e"], f2), "flight-time-after", rtol=1e-7 * cond, ctx=ctx)
                                    else:
                                        R.near(g2, w2, "velocity-after", atol=tol, ctx=ctx)
                            else:
                                R.near(g2, w2, "velocity-after", atol=tol, ctx=ctx)
                                R.near(u2 * 86400, t2, "flight-time-after", rtol=1e-7 * cond, ctx=ctx)
                                physics(R, C["GM"], vinf, X, np.asarray(g2, float), T2, u2, cond * np.sqrt(n), ctx, "after")
                            R.near(x.dv_maneuver_vec, np.asarray(g2) - np.asarray(g1), "delta-v-vector", atol=1e-9 * vm, ctx=ctx)
                            R.near(x.dv_maneuver_mag, np.linalg.norm(np.asarray(g2) - np.asarray(g1)), "delta-v-magnitude", atol=1e-9 * vm, ctx=ctx)
                            if m1 == m2 and psi1 == psi2:
                                R.near(x.dv_maneuver_mag, 0, "vanishes-when-coincident", atol=2 * tol, ctx=ctx)
                            R.state(kind, b, c["d"], vi, m1, m2, psi1, psi2, n)
                            R.outcome(kind, b, round(float(x.dv_maneuver_mag), 4))
                            if len(R.problems) >= 40:
                                return
    R.sample = dict(case=c, last=ctx)
