"""C11: drag-modulation corridor. The entry test is replaced by every verdict function whose boundary depends on the ballistic coefficient actually flown;
real flights bind the searches to the real entry test."""
import itertools
import numpy as np
from . import ref
from .c04 import snapshot, diff, unchanged
from .c10 import BR, TOLS, boundaries, GEO, just_below
PID, LEVEL = "C11", "model_checking"
RULE = ("for each of the eight drag-modulation searches: every pair of boundary positions (low / high ballistic coefficient) x bracket x tolerance x vehicle (beta1, ratio, configured beta, "
        "lift); the verdict depends on the ballistic coefficient and lift flown; plus real flights per body, also with altitude thresholds the user set after building the vehicle; states = entry angles tested, transitions = entry tests")
ASSUME = ["the entry verdict is monotone in the entry angle inside the bracket", "tolerance above the float resolution of the bracket"]
CHUNK = 1
VEHS = [(20.0, 7.5, 20.0, 0.0), (38.0, 4.0, 38.0, 0.0), (25.0, 10.0, 120.0, 0.3), (66.0, 1.0, 66.0, -0.1), (45.0, 1.2, 45.0, 0.0)]   # beta1, ratio, configured beta, L/D
REAL = {"VENUS": (-9.0, -3.0, 2000.0), "MARS": (-16.0, -6.0, 2000.0), "EARTH": (-9.0, -3.0, 2000.0), "TITAN": (-45.0, -25.0, 1700.0)}


def cases(tier):
    out = [dict(kind="stub", br=i, veh=k, variant=v, n=8 if tier == "quick" else 32) for i in range(len(BR)) for k in range(len(VEHS)) for v in (1, 2)]
    out += [dict(kind="real", body=b, variant=v, geo=g) for b in REAL for v in (1, 2) for g in ((0, 1) if tier == "quick" else (0, 1, 2, 3))]
    out += [dict(kind="real", body=b, variant=v, geo=1, user=True) for b in ("VENUS", "MARS") for v in (1, 2)]
    return out


def stub_class(log, f):
    from AMAT.vehicle import Vehicle

    class S(Vehicle):
        def _v(self, variant, *a):
            beta = self.mass / (self.CD * self.A)
            log.append((variant, self.gamma0_deg, beta, self.beta, self.CL, self.LD) + a)
            return 1.0 if self.gamma0_deg < f(beta) else -1.0

        def hitsTargetApoapsis(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
            return self._v(1, t_sec, dt, targetApopasisAltitude_km)

        def hitsTargetApoapsis2(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
            return self._v(2, t_sec, dt, targetApopasisAltitude_km)
    return S


def run(c, R):
    if c["kind"] == "real":
        return real(c, R)
    p = ref.mk_planet("VENUS")
    lo, hi = BR[c["br"]]
    b1, ratio, bcfg, ld = VEHS[c["veh"]]
    sfx = "2" if c["variant"] == 2 else ""
    log = []
    v = stub_class(log, lambda beta: -10.0)("p", 300.0, bcfg, ld, 2.5, 0.0, 1.0, p)
    v.setInitialState(180.0, 1.0, 2.0, 11.0, 3.0, -9.87, 0.0, 0.0); v.setSolverParams(1e-6)
    v.setDragModulationVehicleParams(b1, ratio)
    getattr(v, "findOverShootLimitD" + sfx)(60.0, 1.0, -20.0, -4.0, 1.0, 777.0)
    if not log:         # the searches do not ask the public entry test: only the real flights can decide
        R.state("not-interposable", c["variant"]); R.outcome("not-interposable", c["variant"])
        return
    for i, bd in enumerate(boundaries(lo, hi, c["n"])):
        w = hi - lo
        # overshoot boundary (low coefficient) bd, undershoot boundary (high coefficient) bd - shift
        for shift in (0.0, 0.21 * w, 0.6 * w):
            def f(beta, bd=bd, shift=shift):
                if abs(beta - b1) < 1e-9 * b1 and ratio != 1.0:
                    return bd
                if abs(beta - b1 * ratio) < 1e-9 * b1 * ratio:
                    return bd - shift
                return lo + 0.111 * w       # any other coefficient flown gives some other boundary
            bo, bu = f(b1), f(b1 * ratio)
            for tol in (TOLS if i % 2 else TOLS[1:4]):
                log = []
                v = stub_class(log, f)("p", 300.0, bcfg, ld, 2.5, 0.0, 1.0, p)
                v.setInitialState(180.0, 1.0, 2.0, 11.0, 3.0, -9.87, 0.0, 0.0); v.setSolverParams(1e-6)
                v.setDragModulationVehicleParams(b1, ratio)
                keep = snapshot(v)
                got = {}
                for nm, bound in (("findUnderShootLimitD", bu), ("findOverShootLimitD", bo)):
                    del log[:]
                    lim, flag = getattr(v, nm + sfx)(2400.0, 0.1, lo, hi, tol, 777.0); R.step(len(log))
                    ctx = lambda: f"{nm}{sfx} bracket=({lo},{hi}) boundary={bound!r} tol={tol} veh={VEHS[c['veh']]} -> {lim!r},{flag}"
                    R.ok(log and all(e[0] == c["variant"] and e[4] == 0.0 and e[6:] == (2400.0, 0.1, 777.0) for e in log), "ballistic-entry-test", lambda: f"{ctx()} {log[:2]}")
                    judge(R, lim, flag, bound, lo, hi, tol, ctx)
                    R.ok(unchanged(v, keep), "vehicle-changed", lambda: f"{ctx()} {diff(keep, snapshot(v))}")
                    for e in log:
                        R.state(c["variant"], e[1], round(e[2], 6))
                    got[nm] = lim, flag
                # the general limit uses the vehicle's present ballistic coefficient
                del log[:]
                lim, flag = getattr(v, "findEFPALimitD" + sfx)(2400.0, 0.1, lo, hi, tol, 777.0); R.step(len(log))
                judge(R, lim, flag, f(bcfg), lo, hi, tol, lambda: f"findEFPALimitD{sfx} bracket=({lo},{hi}) boundary={f(bcfg)!r} tol={tol} veh={VEHS[c['veh']]} -> {lim!r},{flag}")
                R.ok(all(e[4] == 0.0 for e in log) and unchanged(v, keep), "vehicle-changed", lambda: f"findEFPALimitD{sfx} {diff(keep, snapshot(v))}")
                w_ = getattr(v, "computeTCWD" + sfx)(2400.0, 0.1, lo, hi, tol, 777.0)
                if got["findUnderShootLimitD"][1] and got["findOverShootLimitD"][1]:
                    R.ok(w_ == got["findOverShootLimitD"][0] - got["findUnderShootLimitD"][0] and abs(w_ - (bo - bu)) <= 2 * tol + 1e-9, "corridor-width", lambda: f"{w_} {got} boundaries {bo} {bu}")
                R.ok(unchanged(v, keep), "vehicle-changed", lambda: f"computeTCWD{sfx} {diff(keep, snapshot(v))}")
                R.outcome(c["br"], c["veh"], got["findUnderShootLimitD"], got["findOverShootLimitD"])
                if len(R.problems) > 20:
                    return
    R.sample = dict(case=c, last=str(got), width=w_)


def judge(R, lim, flag, bound, lo, hi, tol, ctx):
    if lo < bound <= hi:
        R.ok(flag == 1.0, "flag-found", ctx)
        R.ok(lim >= bound and lim - bound <= tol * (1 + 1e-9) + 1e-13 and lo <= lim <= hi, "limit-within-tolerance", ctx)
    else:
        R.ok(flag == 0.0, "flag-not-found", ctx)


def real(c, R):
    b = c["body"]
    p = ref.mk_planet(b)
    th, ph, ps = GEO[c["geo"]]
    lo, hi, tgt = REAL[b]
    b1, ratio = (20.0, 7.5) if c["geo"] == 0 else (35.0, 4.0)
    ld = 0.0 if c["geo"] == 0 else 0.25
    kw = dict(theta=th, phi=ph, psi=ps)
    T, dt, tol = (1500.0, 4.0, 1e-4) if b in ("VENUS", "EARTH", "MARS") else (3500.0, 8.0, 1e-4)
    sfx = "2" if c["variant"] == 2 else ""
    if c.get("user"):
        kw["h0"] = ref.user_thresholds(ref.mk_planet(b, load=False), low=2.0).h_skip * 1e-3
    v = ref.mk_vehicle(p, beta=b1, LD=ld, **kw); v.setDragModulationVehicleParams(b1, ratio)
    if c.get("user"):       # the user moves the thresholds of the body after the vehicle was built
        ref.user_thresholds(p, low=2.0)
    keep = snapshot(v)
    for nm, beta in (("findUnderShootLimitD", b1 * ratio), ("findOverShootLimitD", b1)):
        lim, flag = getattr(v, nm + sfx)(T, dt, lo, hi, tol, tgt); R.step()
        now = snapshot(v)
        R.ok(all(now[k] == keep[k] for k in keep), "vehicle-changed", lambda: str(diff(keep, {k: now[k] for k in keep})))

        def test(g):
            w = ref.mk_vehicle(p, gamma=g, beta=beta, LD=0.0, **kw)
            return (w.hitsTargetApoapsis if c["variant"] == 1 else w.hitsTargetApoapsis2)(T, dt, 0.0, tgt)
        ends = test(lo), test(hi)
        if ends[0] * ends[1] < 0:
            R.ok(flag == 1.0 and lo <= lim <= hi, "real-found", lambda: f"{nm} {lim} {flag} ends {ends}")
            R.ok(test(lim) == ends[1] and just_below(test, lim, tol, lo, hi, ends[0]) == ends[0], "real-bracketed", lambda: f"{nm} {lim}")
        else:
            R.ok(flag == 0.0, "real-not-found", lambda: f"{nm} {lim} {flag} ends {ends}")
        R.outcome(b, nm, flag, round(lim, 4))
        R.state("real", b, nm, c["variant"], c["geo"])
        R.sample = dict(case=c, search=nm, limit=lim, flag=flag)
