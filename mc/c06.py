"""C06: all altitude histories up to a depth over an alphabet of threshold-relative altitudes, against a reference event automaton; plus real flights."""
import itertools
import numpy as np
from . import ref, traj
PID, LEVEL = "C06", "model_checking"
RULE = ("every altitude history of length 1..5 (thorough 1..6) over 9 altitudes at, just above and just below the surface, trap-in and skip-out thresholds, for every body (also with thresholds the user sets and changes), plus every "
        "flight of a product of body x entry angle x duration x bank x front end; states = histories, transitions = appended samples")
ASSUME = ["altitudes within 1e-6 m of the skip-out altitude count as at it (round-off of r - RP)"]
CHUNK = 1


def cases(tier):
    out = []
    for b in ref.BODIES:
        for first in range(9):
            out.append(dict(kind="seq", body=b, first=first, depth=5 if tier == "quick" else 6))
        for dg in (0.4, 0.8, 1.0, 1.3, 2.2):
            for bank in (0.0, 90.0, 180.0):
                out.append(dict(kind="flight", body=b, dg=dg, bank=bank))
                if bank != 90.0 and dg != 0.8:
                    out.append(dict(kind="flight", body=b, dg=dg, bank=bank, user=True))
        out.append(dict(kind="user", body=b, depth=3 if tier == "quick" else 4))
    return out


def alphabet(p):
    return np.array([-500.0, 0.0, p.h_trap - 1.0, p.h_trap, p.h_trap + 1.0, 0.5 * (p.h_trap + p.h_skip), p.h_skip - 1.0, p.h_skip, p.h_skip + 1.0])


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    C = ref.CONST[b]
    v = ref.mk_vehicle(p)
    skip, trap = C[10] * 1e3, C[11] * 1e3
    if c.get("user"):
        ref.user_thresholds(p); skip, trap = p.h_skip, p.h_trap
    if c["kind"] == "user":
        return user(c, R, b, p, v)
    if c["kind"] == "flight":
        return flight(c, R, b, p, v, skip, trap)
    al = alphabet(p)
    full_trunc = 3
    for n in range(1, c["depth"] + 1):
        for rest in itertools.product(range(9), repeat=n - 1):
            s = (c["first"],) + rest
            h = al[list(s)]
            r = h + p.RP
            if n <= 3:
                keep = r.copy()
            idx, flag = v.classifyTrajectory(r); R.step()
            wi, wf = traj.spec_classify(h, skip, trap)
            R.ok(int(idx) == wi and float(flag) == wf, "classification", lambda: f"h={h.tolist()} got ({idx},{flag}) want ({wi},{wf})")
            if b == "VENUS":
                R.state(s)
            R.outcome(b, wi, wf, n)
            if n <= full_trunc:
                R.ok(np.array_equal(keep, r), "input-mutated")
                arrs = [np.arange(n) * (k + 1.0) for k in range(8)]
                cut = v.truncateTrajectory(*arrs, idx)
                R.ok(len(cut) == 8 and all(np.array_equal(x, a[:wi]) for x, a in zip(cut, arrs)), "truncation", lambda: f"h={h.tolist()}")
    R.sample = dict(body=b, history=h.tolist(), index=int(idx), flag=float(flag))


def user(c, R, b, p, v):
    """thresholds set on the planet after the vehicle was built, and changed again between histories"""
    s0 = (p.h_skip, p.h_trap)
    sets = [(0.85 * s0[0], 0.5 * s0[1]), s0, (0.6 * s0[0], 2.0 * s0[1]), (0.5 * s0[0], 0.3 * s0[0])]
    for n in range(1, c["depth"] + 1):
        for s in itertools.product(range(9), repeat=n):
            for j, (skip, trap) in enumerate(sets):
                p.h_skip, p.h_trap = skip, trap
                h = alphabet(p)[list(s)]
                idx, flag = v.classifyTrajectory(h + p.RP); R.step()
                wi, wf = traj.spec_classify(h, skip, trap)
                R.ok(int(idx) == wi and float(flag) == wf, "classification-user-thresholds", lambda: f"skip {skip} trap {trap} h={h.tolist()} got ({idx},{flag}) want ({wi},{wf})")
                if b == "VENUS":
                    R.state("user", s, j)
    R.sample = dict(body=b, thresholds=sets)


def flight(c, R, b, p, v, skip, trap):
    wi = wf = None
    top = p.h_skip / 1e3
    for T in (60.0, 400.0, 2500.0):
        for geo in ((0.0, 0.0, 0.0), (30.0, -40.0, 110.0)):
            for h0 in (top, top - 2.0):
                for variant in (1, 2):
                    if c.get("user"):                   # built before the thresholds are set
                        p = ref.mk_planet(b)
                    v = ref.mk_vehicle(p, theta=geo[0], phi=geo[1], psi=geo[2], gamma=ref.VEH[b][8] * c["dg"], h0=h0)
                    if c.get("user"):
                        ref.user_thresholds(p)
                    s0 = p.nonDimState(p.RP + h0 * 1e3, np.radians(geo[0]), np.radians(geo[1]), v.v0_kms * 1e3, np.radians(geo[2]), np.radians(v.gamma0_deg), 0.0)
                    dt = 2.0
                    bk = np.radians(c["bank"])
                    full = (v.solveTrajectory if variant == 1 else v.solveTrajectory2)(*s0, T, dt, bk)
                    h = np.asarray(full[1]) * p.RP - p.RP
                    if not np.all(np.isfinite(h)) or np.any(np.degrees(full[6]) < -86):
                        continue      # heading singularity
                    wi, wf = traj.spec_classify(h, skip, trap)
                    if wi < 2 or np.min(np.abs(h[1:, None] - np.array([skip, trap, 0.0]))) < 20.0:
                        continue
                    (v.propogateEntry if variant == 1 else v.propogateEntry2)(T, dt, c["bank"]); R.step()
                    R.ok(float(v.exitflag) == wf, "flight-exitflag", lambda: f"T={T} variant={variant} got {v.exitflag} want {wf}")
                    R.ok(int(v.index) == wi, "flight-index", lambda: f"T={T} variant={variant} got {v.index} want {wi}")
                    names = ["tc", "rc", "thetac", "phic", "vc", "psic", "gammac", "drangec", "t_minc", "h_kmc", "v_kmsc", "phi_degc", "psi_degc", "theta_degc", "gamma_degc",
                             "drange_kmc", "acc_net_g", "acc_drag_g", "dyn_pres_atm", "stag_pres_atm", "q_stag_con", "q_stag_rad", "q_stag_total", "heatload"]
                    L = {n: len(getattr(v, n)) for n in names}
                    R.ok(set(L.values()) == {wi} and wi > 0, "flight-lengths", lambda: f"{L} want {wi}")
                    R.near(np.asarray(v.rc) - p.RP, h[:wi], "flight-samples", rtol=1e-4, atol=500.0)
                    R.state("flight", b, bool(c.get("user")), c["dg"], c["bank"], T, geo, h0, variant)
                    R.outcome("flight", b, wi, wf)
    R.sample = dict(case=c, index=wi, flag=wf)
