"""C09: verdicts of the target-apoapsis and capture tests on a complete grid of entries and targets around each flown apoapsis."""
import numpy as np
from . import ref, traj
from .c04 import snapshot, diff
PID, LEVEL = "C09", "exploration"
RULE = ("full product body x geometry (prograde, retrograde, polar; both hemispheres) x bank x entry angle from escape to surface impact x target apoapsis placed just below, just above "
        "and far from the flown apoapsis, for the rotating and the non-rotating test and the capture test; the planet's own altitude thresholds and ones set by the user; distinct = (verdict, class, target side)")
ASSUME = ["flights that neither leave nor drop below the trap-in altitude within the propagation time (or before the integrator gives up in a vertical dive) are not judged", "the non-rotating test and the capture test use the planet-relative exit speed (documented)",
          "target apoapsis above the atmosphere", "targets closer than 1e-4 (relative) to the flown apoapsis are not judged"]
CHUNK = 1
GEO = [(0.0, 0.0, 0.0), (-70.0, 35.0, 180.0), (200.0, -55.0, -60.0), (100.0, 10.0, 95.0)]


def cases(tier):
    sc = [0.5, 0.7, 0.85, 0.92, 0.97, 1.0, 1.05, 1.1, 1.2, 1.35, 1.6, 2.2]
    if tier == "thorough":
        sc = list(np.round(np.linspace(0.4, 2.4, 61), 4))
    return [dict(body=b, geo=g, bank=k, scale=s) for b in ref.BODIES for g in range(4) for k in (0.0, 80.0, 180.0) for s in sc
            if tier == "thorough" or (g + int(k // 80)) % 2 == 0] + \
           [dict(body=b, geo=1, bank=40.0, scale=s, user=True) for b in ref.BODIES for s in (sc if tier == "thorough" else (0.7, 0.92, 1.0, 1.1, 1.6))]


def verdict(K, RP, tgt_km, flag, h_end, h_low):
    if flag < 0:
        return 1.0
    if K["E"] >= 0:
        return -1.0
    return -1.0 if (K["ra"] - RP) / 1e3 >= tgt_km else 1.0


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    C = ref.CONST[b]
    th, ph, ps = GEO[c["geo"]]
    kw = dict(theta=th, phi=ph, psi=ps, gamma=ref.VEH[b][8] * c["scale"])
    if c.get("user"):
        ref.user_thresholds(p)
        kw["h0"] = p.h_skip / 1e3
    top, bottom = p.h_skip / 1e3, p.h_low / 1e3

    def vehicle():
        if not c.get("user"):
            return ref.mk_vehicle(p, **kw)
        q = ref.mk_planet(b)                  # the user's thresholds arrive after the vehicle was built
        v = ref.mk_vehicle(q, **kw)
        ref.user_thresholds(q)
        return v
    T, dt = (1500.0, 4.0) if b in ("VENUS", "EARTH", "MARS") else (2500.0, 5.0)
    for variant in (1, 2):
        v0 = vehicle()
        (v0.propogateEntry if variant == 1 else v0.propogateEntry2)(T, dt, c["bank"]); R.step()
        flag = float(v0.exitflag)
        if flag == 0 and v0.h_kmc[-1] > bottom:
            continue
        if not np.all(np.isfinite(v0.rc)):
            R.fail("non-finite", "flight is not finite"); continue
        y = [getattr(v0, n)[-1] for n in ("rc", "vc", "gammac", "thetac", "phic", "psic")]
        om = C[1] if variant == 2 else 0.0
        X, V = ref.inertial(om, *y[:3], *y[3:])
        K = ref.kepler(C[2], X, V)
        if flag == 0:
            flag = -1.0              # still descending, below h_low
        if flag == 1 and abs(K["E"]) < 1e-4 * C[2] / K["r"]:
            continue
        tg = [max(400.0, 1.2 * top), 1e6]
        if flag == 1 and K["E"] < 0:
            apo = (K["ra"] - C[0]) / 1e3
            tg += [apo * 0.5, apo * 0.999, apo * 1.001, apo * 3]
        for t in tg:
            if t <= top:
                continue
            v = vehicle()
            keep = {k: x for k, x in snapshot(v).items()}
            got = (v.hitsTargetApoapsis if variant == 1 else v.hitsTargetApoapsis2)(T, dt, c["bank"], t); R.step()
            want = verdict(K, C[0], t, flag, v0.h_kmc[-1], bottom)
            R.ok(float(got) == want, f"verdict{variant}", lambda: f"target {t} flown apo {(K['ra'] - C[0]) / 1e3} E {K['E']} flag {flag} got {got} want {want}")
            R.outcome(b, variant, want, flag, K["E"] < 0, bool((K["ra"] - C[0]) / 1e3 > t))
            now = snapshot(v)
            R.ok(all(now.get(k) == x for k, x in keep.items() if k not in ("index", "exitflag")), f"entry-changed{variant}", lambda: f"{diff(keep, {k: now.get(k) for k in keep})}")
            R.near(v.rc, v0.rc, "flight-changed", rtol=1e-9)
            if t != tg[-1]:
                continue
            got2 = (v.hitsTargetApoapsis if variant == 1 else v.hitsTargetApoapsis2)(T, dt, c["bank"], t)
            R.ok(got2 == got, f"repeat{variant}")
        if variant == 1 and not (flag < 0 and K["E"] >= 0):      # a coarse output step may end a dive at hyperbolic speed
            v = vehicle()
            got = v.isCaptured(T, dt, c["bank"]); R.step()
            want = -1.0 if (flag < 0 or K["E"] < 0) else 1.0
            R.ok(float(got) == want, "isCaptured", lambda: f"E {K['E']} flag {flag} got {got} want {want}")
            R.outcome(b, "cap", want, flag)
        R.state(b, c["geo"], c["bank"], c["scale"], variant, "user" in c)
    R.sample = dict(case=c, flag=flag)
