"""C08: exit-orbit geometry and correction burns on complete grids of exit states and orbits, against Cartesian two-body mechanics."""
import itertools
import numpy as np
from . import ref
PID, LEVEL = "C08", "exploration"
RULE = ("full product body x radius x relative speed (sub-orbital, circular, elliptic, near-parabolic, hyperbolic) x flight-path angle (both signs, zero, vertical) x longitude x "
        "latitude (both hemispheres, poles) x heading (all quadrants) for the exit orbit; full product periapsis x apoapsis x target (incl. below the surface, lowering, no change) "
        "for the burns; distinct = (apoapsis, periapsis) pairs")
ASSUME = ["exit states within 1e-6 (relative) of parabolic energy are compared with a correspondingly wider tolerance"]
CHUNK = 1


def cases(tier):
    return [dict(kind="orbit", body=b, k=k, tier=tier) for b in ref.BODIES for k in range(8)] + [dict(kind="burn", body=b, tier=tier) for b in ref.BODIES]


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b, load=False)
    C = ref.CONST[b]
    RP, OM, GM = C[0], C[1], C[2]
    v = ref.mk_vehicle(p)
    if c["kind"] == "burn":
        return burns(c, R, b, v, RP, GM)
    th_ = c["tier"] == "thorough"
    hs = [0.0, C[10] * 1e3, 3 * C[10] * 1e3]
    frac = [0.5, 0.95, 1.0, 1.2, 1.38, 1.45, 2.0, 3.5][c["k"]]
    gs = np.radians([-30.0, -3.0, 0.0, 0.5, 12.0, 60.0, 90.0])
    ths = np.radians([0.0, 130.0, 250.0, -40.0] if not th_ else np.arange(-180, 181, 30))
    phs = np.radians([-90.0, -35.0, 0.0, 20.0, 78.0] if not th_ else np.arange(-90, 91, 15))
    pss = np.radians([0.0, 55.0, 90.0, 170.0, 180.0, 265.0, 320.0] if not th_ else np.arange(0, 360, 20))
    for h, g, th, ph, ps in itertools.product(hs, gs, ths, phs, pss):
        r = RP + h
        sp = frac * np.sqrt(GM / r)
        X, V = ref.inertial(OM, r, sp, g, th, ph, ps)
        K = ref.kepler(GM, X, V)
        apo = v.compute_ApoapsisAltitudeKm(r, sp, g, th, ph, ps); per = v.compute_PeriapsisAltitudeKm(r, sp, g, th, ph, ps); R.step(2)
        cond = 1 + GM / (r * abs(K["E"]))
        # a nearly circular orbit loses digits in sqrt(1 + 2 E h^2 / GM^2)
        ee = 1e-15 * 20 * cond / max(K["e"], 1e-8) + 1e-12 * cond
        tolr = abs(K["a"]) * (1e-9 * cond + ee)
        ctx = lambda: f"r={r} v={sp} g={g} th={th} ph={ph} ps={ps} e={K['e']} E={K['E']}"
        if K["E"] < 0:
            R.ok(abs(apo * 1e3 + RP - K["ra"]) <= tolr, "apoapsis", lambda: f"got {apo} want {(K['ra'] - RP) / 1e3} {ctx()}")
        else:
            R.ok(apo < 0, "escape-reported-captured", lambda: f"got {apo} {ctx()}")
        R.ok(abs(per * 1e3 + RP - K["rp"]) <= tolr, "periapsis", lambda: f"got {per} want {(K['rp'] - RP) / 1e3} {ctx()}")
        R.outcome(b, float(np.round(K["ra"] / RP, 6)), float(np.round(K["rp"] / RP, 6)))
        # scalar helpers on the inertial state
        vi = K["v"]; gi = np.arcsin(np.clip(np.dot(X, V) / (K["r"] * vi), -1, 1))
        E = v.computeEnergyScalar(r, vi); H = v.computeAngMomScalar(r, vi, gi); a = v.computeSemiMajorAxisScalar(E); e = v.computeEccScalar(H, E); R.step(4)
        R.ok(abs(E - K["E"]) <= 1e-9 * (GM / r + vi**2) and abs(H - K["hm"]) <= 1e-7 * r * vi and abs(a - K["a"]) <= 1e-7 * abs(K["a"]) * cond
             and abs(e - K["e"]) <= 1e-7 * cond / max(K["e"], 1e-3), "scalar-helpers", lambda: f"E {E} {K['E']} H {H} {K['hm']} a {a} {K['a']} e {e} {K['e']} {ctx()}")
    # exactly circular inertial orbits
    for h in hs:
        r = RP + h
        for m in range(60):
            vc = np.sqrt(GM / r) * (1 + (m - 30) * 2.3e-16)
            E = v.computeEnergyScalar(r, vc); H = v.computeAngMomScalar(r, vc, 0.0); e = v.computeEccScalar(H, E); R.step(3)
            R.ok(np.isfinite(e) and 0 <= e < 1e-6, "circular-orbit-eccentricity", lambda: f"e={e} at r={r} v={vc!r}")
    R.state(b, c["k"])
    R.sample = dict(case=c, apo_km=float(apo), peri_km=float(per))


def burns(c, R, b, v, RP, GM):
    pk = [-0.2 * RP / 1e3, -50.0, 0.0, 180.0, 400.0, 2000.0, 1e4]
    ak = [100.0, 400.0, 1200.0, 2000.0, 1e4, 5e4, 1e6]
    vv = lambda r, a: np.sqrt(GM * (2 / r - 1 / a))
    for pe, ap, tg in itertools.product(pk, ak, sorted(set(pk + ak))):
        if ap < pe:
            continue
        rp, ra = RP + pe * 1e3, RP + ap * 1e3
        if tg <= ap:
            rt = RP + tg * 1e3
            want = vv(ra, (ra + rt) / 2) - vv(ra, (ra + rp) / 2)
            R.near(v.compute_periapsis_raise_DV(pe, ap, tg), want, "periapsis-raise", rtol=1e-7, atol=1e-6, ctx=f"peri={pe} apo={ap} target={tg}"); R.step()
        if tg >= pe:
            rt = RP + tg * 1e3
            want = vv(rp, (rt + rp) / 2) - vv(rp, (ra + rp) / 2)
            R.near(v.compute_apoapsis_raise_DV(pe, ap, tg), want, "apoapsis-raise", rtol=1e-7, atol=1e-6, ctx=f"peri={pe} apo={ap} target={tg}"); R.step()
        R.outcome(b, pe, ap, tg)
    R.state(b, "burn")
    R.sample = dict(body=b, peri=pe, apo=ap, target=tg)
