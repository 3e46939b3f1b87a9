"""C10: corridor searches. The entry test is replaced by every monotone verdict function of a family (all boundary positions), so the complete
bisection tree is explored on the real search code; real flights bind the searches to the real entry test."""
import itertools, re
import numpy as np
from . import ref
from .c04 import snapshot, diff, unchanged
PID, LEVEL = "C10", "model_checking"
RULE = ("for each of the six searches: every boundary position of a dyadic and a non-dyadic grid over (and outside) the bracket x every bracket x every tolerance (coarser than the bracket "
        "to 1e-9); each explored against the reference interval [limit - tol, limit]; plus real flights per body and front end, also with altitude thresholds the user set after building the vehicle; states = search intervals queried, transitions = entry tests")
ASSUME = ["the entry verdict is monotone in the entry angle inside the bracket", "tolerance above the float resolution of the bracket"]
CHUNK = 1
BR = [(-20.0, -4.0), (-80.0, -3.0), (-7.3, -7.1), (-13.0, -12.0)]
TOLS = [30.0, 1.0, 0.05, 1e-3, 1e-6, 1e-9]
REAL = {"VENUS": (-12.0, -5.5, 400.0), "MARS": (-20.0, -8.0, 2000.0), "TITAN": (-50.0, -28.0, 1700.0), "NEPTUNE": (-20.0, -9.0, 4e5), "EARTH": (-12.0, -4.0, 1000.0), "URANUS": (-20.0, -8.0, 5e5)}


def cases(tier):
    out = [dict(kind="stub", br=i, variant=v, n=16 if tier == "quick" else 96) for i in range(len(BR)) for v in (1, 2)]
    out += [dict(kind="tcw", variant=v) for v in (1, 2)]
    for b in REAL:
        for v in (1, 2):
            for side in ("over", "under"):
                out.append(dict(kind="real", body=b, variant=v, side=side, geo=(0 if side == "over" else 1)))
    out += [dict(kind="real", body=b, variant=v, side=side, geo=1, user=True) for b, side in (("VENUS", "over"), ("TITAN", "under")) for v in (1, 2)]
    if tier == "thorough":
        out += [dict(kind="real", body=b, variant=v, side=s, geo=g) for b in REAL for v in (1, 2) for s in ("over", "under") for g in (2, 3)]
    return out


def stub_class(log, bounds):
    """Vehicle whose entry test is the verdict function gamma -> +1 below the boundary of that bank angle"""
    from AMAT.vehicle import Vehicle

    def verdict(self, variant, t_sec, dt, delta, target):
        log.append((variant, self.gamma0_deg, delta, t_sec, dt, target))
        return 1.0 if self.gamma0_deg < bounds[round(delta) % 360] else -1.0

    class S(Vehicle):
        def hitsTargetApoapsis(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
            return verdict(self, 1, t_sec, dt, delta_deg, targetApopasisAltitude_km)

        def hitsTargetApoapsis2(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
            return verdict(self, 2, t_sec, dt, delta_deg, targetApopasisAltitude_km)
    return S


def interposed(p, variant):
    """whether the searches ask the public entry test (which the stand-in replaces); otherwise only the real flights can decide"""
    log = []
    v = mk(stub_class(log, {0: -10.0, 180: -10.0}), p)
    getattr(v, "findOverShootLimit" + ("2" if variant == 2 else ""))(60.0, 1.0, -20.0, -4.0, 1.0, 777.0)
    return bool(log)


def mk(S, p):
    v = S("probe", 1500.0, 120.0, 0.3, 10.0, 0.0, 1.0, p)
    v.setInitialState(180.0, 1.0, 2.0, 11.0, 3.0, -9.87, 0.0, 0.0); v.setSolverParams(1e-6)
    return v


def boundaries(lo, hi, n):
    w = hi - lo
    s = {lo + w * k / n for k in range(n + 1)} | {lo + w * k / 7.0 for k in range(1, 7)}
    s |= {lo + w * 1e-7, hi - w * 1e-7, lo - 0.1 * w, hi + 0.1 * w, hi + 1e-9, lo - 1e-9}
    return sorted(s)


def run(c, R):
    if c["kind"] == "real":
        return real(c, R)
    p = ref.mk_planet("VENUS")
    if not interposed(p, c["variant"]):
        R.state("not-interposable", c["variant"]); R.outcome("not-interposable", c["variant"])
        return
    if c["kind"] == "tcw":
        return tcw(c, R, p)
    lo, hi = BR[c["br"]]
    for side, bank in (("Over", 180), ("Under", 0)):
        nm = f"find{side}ShootLimit" + ("2" if c["variant"] == 2 else "")
        for bd in boundaries(lo, hi, c["n"]):
            for tol in TOLS:
                log = []
                S = stub_class(log, {bank: bd, 180 - bank: -50.0 if bd > -40 else -5.0})
                v = mk(S, p)
                if bd > lo:
                    v.gamma0_deg = -6.54        # the current angle, not the one first configured, is what must come back
                keep = snapshot(v)
                lim, flag = getattr(v, nm)(2400.0, 0.1, lo, hi, tol, 777.0)
                R.step(len(log))
                ctx = lambda: f"{nm} bracket=({lo},{hi}) boundary={bd!r} tol={tol} -> {lim!r},{flag}"
                for e in log:
                    R.state(c["variant"], side, e[1])
                R.ok(all(e[0] == c["variant"] and round(e[2]) % 360 == bank and e[3:] == (2400.0, 0.1, 777.0) for e in log) and log, "entry-test-arguments", lambda: f"{ctx()} {log[:3]}")
                inside = lo < bd <= hi
                if inside:
                    R.ok(flag == 1.0, "flag-found", ctx)
                    R.ok(lim >= bd and lim - bd <= tol * (1 + 1e-9) + 1e-13 and lo <= lim <= hi, "limit-within-tolerance", ctx)
                else:
                    R.ok(flag == 0.0, "flag-not-found", ctx)
                R.ok(unchanged(v, keep), "vehicle-changed", lambda: f"{ctx()} {diff(keep, snapshot(v))}")
                R.outcome(nm, inside, lim)
                if len(R.problems) > 20:
                    return
    R.sample = dict(case=c, last=[nm, bd, tol, lim, flag], queries=len(log))


def tcw(c, R, p):
    nm = "computeTCW" + ("2" if c["variant"] == 2 else "")
    for bo, bu in itertools.product([-4.5, -6.25, -8.0, -30.0], [-9.5, -11.3, -14.0, -2.0]):
        for lo_o, hi_o, lo_u, hi_u in ((-9.0, -4.0, -18.0, -8.5), (-20.0, -4.2, -20.0, -4.2)):
            for to, tu in ((1e-4, 1e-4), (1e-2, 1e-6), (1e-7, 0.3)):
                log = []
                v = mk(stub_class(log, {180: bo, 0: bu}), p)
                keep = snapshot(v)
                R.stdout.seek(0); R.stdout.truncate()
                w = getattr(v, nm)(2400.0, 0.1, lo_o, hi_o, lo_u, hi_u, to, tu, 555.0); R.step(len(log))
                said = {k: re.search(k + r"\s*:\s*([-+0-9.eE]+)", R.stdout.getvalue()) for k in ("Overshoot Limit", "Undershoot Limit", "Corridor Width")}
                f = "2" if c["variant"] == 2 else ""
                o, fo = getattr(v, "findOverShootLimit" + f)(2400.0, 0.1, lo_o, hi_o, to, 555.0)
                u, fu = getattr(v, "findUnderShootLimit" + f)(2400.0, 0.1, lo_u, hi_u, tu, 555.0)
                ctx = f"{nm} os={bo} us={bu} brackets {(lo_o, hi_o, lo_u, hi_u)} tol {(to, tu)} got {w} want {o - u}"
                if fo and fu:
                    R.ok(w == o - u and abs(w - (bo - bu)) <= to + tu + 1e-12, "corridor-width", ctx)
                    for k, want in (("Overshoot Limit", o), ("Undershoot Limit", u), ("Corridor Width", w)):
                        R.ok(said[k] is None or abs(float(said[k].group(1)) - want) < 0.0051, "printed", lambda: f"{ctx}: {said[k].group(0)}")
                R.ok(unchanged(v, keep), "vehicle-changed", ctx)
                R.ok(all(e[0] == c["variant"] for e in log), "front-end-mixed", ctx)
                R.outcome(nm, bo, bu, w)
                R.state("tcw", c["variant"], bo, bu, lo_o, to)
    R.sample = dict(case=c, width=w)


GEO = [(0.0, 0.0, 0.0), (40.0, -35.0, 120.0), (-70.0, 60.0, 200.0), (10.0, 5.0, 270.0)]


def just_below(test, lim, tol, lo, hi, want):
    """verdict one tolerance below the limit; integration noise can make the verdict chatter within the last tolerance: there any angle with the other verdict brackets"""
    below = test(lim - tol * 1.001)
    if below == want:
        return below
    w = hi - lo
    while w > tol:
        w /= 2
    probes = [lim - w, lim - w / 2, lim - tol, *(lim - tol * np.arange(1, 12) / 12)]
    return next((want for g in probes if g >= lo and test(g) == want), below)


def real(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    th, ph, ps = GEO[c["geo"]]
    lo, hi, tgt = REAL[b]
    kw = dict(theta=th, phi=ph, psi=ps, heat=5.0)
    if c.get("user"):
        kw["h0"] = ref.user_thresholds(ref.mk_planet(b, load=False), low=2.0).h_skip * 1e-3
    v = ref.mk_vehicle(p, **kw)
    if c.get("user"):       # the user moves the thresholds of the body after the vehicle was built
        ref.user_thresholds(p, low=2.0)
    sfx = "2" if c["variant"] == 2 else ""
    nm = ("findOverShootLimit" if c["side"] == "over" else "findUnderShootLimit") + sfx
    bank = 180.0 if c["side"] == "over" else 0.0
    T, dt, tol = (1500.0, 4.0, 1e-4) if b in ("VENUS", "EARTH", "MARS") else (3500.0, 8.0, 1e-4)
    keep = snapshot(v)
    lim, flag = getattr(v, nm)(T, dt, lo, hi, tol, tgt); R.step()
    now = snapshot(v)
    R.ok(all(now[k] == keep[k] for k in keep), "vehicle-changed", lambda: str(diff(keep, {k: now[k] for k in keep})))
    def test(g):
        w = ref.mk_vehicle(p, gamma=g, **kw)
        return (w.hitsTargetApoapsis if c["variant"] == 1 else w.hitsTargetApoapsis2)(T, dt, bank, tgt)
    ends = test(lo), test(hi)
    R.state("real", b, c["variant"], c["side"], c["geo"])
    if ends[0] * ends[1] < 0:
        R.ok(flag == 1.0 and lo <= lim <= hi, "real-found", lambda: f"{nm} {lim} {flag} ends {ends}")
        at, below = test(lim), just_below(test, lim, tol, lo, hi, ends[0])
        R.ok(at == ends[1] and below == ends[0], "real-bracketed", lambda: f"{nm} limit {lim}: verdict {at} there, {below} up to one tolerance below; ends {ends}")
        lim2, _ = getattr(v, nm)(T, dt, lo, hi, tol, tgt)
        R.ok(lim2 == lim, "real-repeat", lambda: f"{lim} then {lim2}")
    else:
        R.ok(flag == 0.0, "real-not-found", lambda: f"{nm} {lim} {flag} ends {ends}")
    R.outcome(b, nm, flag, round(lim, 4))
    R.sample = dict(case=c, limit=lim, flag=flag)
