"""C03 equations of motion: complete grid of states on the real derivative against a Cartesian rotating-frame reference."""
import itertools
import numpy as np
from . import ref
PID, LEVEL = "C03", "exploration"
RULE = ("full product of body x vehicle (lifting, ballistic, negative lift, CD(Mach), coefficients re-assigned after use) x altitude (below surface .. above atmosphere) x latitude (both "
        "hemispheres, equator, near pole) x heading (all quadrants) x flight-path angle (both signs) x speed x bank (all quadrants); distinct by derivative vector")
ASSUME = ["heading rate uses the documented regularisation cos(gamma)+0.01", "CD(Mach) functions accept scalars and arrays"]
CHUNK = 1


def cdm(M):
    return 0.35 + 1.2 * np.exp(-M / 6.0)


VEHS = [dict(), dict(LD=0.0, mass=310.0, beta=41.0, A=3.3), dict(LD=-0.2, RN=0.4, beta=77.0), dict(cdmach=True, LD=0.42), dict(change=(37.0, 0.31), LD=0.1)]


def cases(tier):
    return [dict(body=b, veh=i, hk=hk, tier=tier) for b in ref.BODIES for i in range(len(VEHS)) for hk in range(8)]


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b); B = ref.Body(p)
    kw = dict(VEHS[c["veh"]])
    if kw.get("cdmach"):
        kw["cdmach"] = cdm
    v = ref.mk_vehicle(p, **kw)
    m, be, ld, ar = v.mass, v.beta, v.LD, v.A
    R.near([v.mass, v.A, v.LD], [kw.get("mass", ref.VEH[b][0]), kw.get("A", ref.VEH[b][3]), kw.get("LD", ref.VEH[b][2])], "vehicle-parameters", rtol=1e-12)
    be = kw.get("beta", ref.VEH[b][1])
    if kw.get("change"):                    # aerodynamics re-assigned after use, as drag modulation and dispersed runs do
        for f in ("D", "L"):
            getattr(v, f)(p.RP + 0.3 * p.h_thres, 0.0, 0.0, 1e3)
        be, ld = kw["change"]
        v.beta, v.LD = be, ld
        v.CD = v.mass / (be * v.A); v.CL = ld * v.CD
    top = A.hthres
    hs = [-2000.0, 0.0, 0.08 * top, 0.25 * top, 0.5 * top, 0.9 * top, top - 1.0, top + 5e4]
    h = hs[c["hk"]]
    thorough = c["tier"] == "thorough"
    phis = np.radians([-85, -40, -10, 0, 25, 70] if not thorough else [-89, -85, -60, -40, -10, -1, 0, 1, 25, 45, 70, 88])
    psis = np.radians([0, 40, 90, 135, 180, 250, 300, -20] if not thorough else list(range(-30, 391, 20)))
    gams = np.radians([-89.9, -50, -7, 0, 12, 60] if not thorough else [-89.9, -88, -70, -50, -20, -7, -1, 0, 1, 12, 40, 60, 89])
    vs = [0.05 * p.Vref, 1.0 * p.Vref, 1.6 * p.Vref]
    banks = np.radians([0, 35, 90, 145, 180, -60, 250] if not thorough else [0, 15, 35, 60, 90, 120, 145, 180, 200, -60, -90, -135, 250, 330, 400])
    ths = [0.0, 2.0, -3.0]
    S = np.array([p.RP, 1, 1, p.Vref, 1, 1, p.RP])
    rho = float(A.dens(h))
    r = p.RP + h
    CDb = m / (be * ar)
    n = 0
    for ph, g, sp in itertools.product(phis, gams, vs):
        if kw.get("cdmach"):
            CD = cdm(sp / float(A.fa(h)))
        else:
            CD = CDb
        q = 0.5 * rho * sp**2
        lift, drag = q * CDb * ld * ar / m, q * CD * ar / m
        for ps, bk in itertools.product(psis, banks):
            n += 1
            th = ths[n % 3]
            y = np.array([r, th, ph, sp, ps, g, 1e5 * (n % 2)])
            want = ref.rhs(B, y, lift, drag, bk)
            yn = list(y / S); t = 0.37 * (n % 4)
            got = np.array(v.EOM(yn, t, bk), dtype=float) * S / p.tau
            R.step()
            scale = np.array([sp, sp / (r * np.cos(ph)), sp / r, abs(lift) + drag + p.GM / r**2, (abs(lift) + drag + p.GM / r**2) / (sp * (np.cos(g) + .01)) + sp / r + abs(B.OM),
                              (abs(lift) + drag + p.GM / r**2) / sp + sp / r, sp])
            tol = 1e-8 * scale
            R.ok(got.shape == (7,) and np.all(np.abs(got - want) <= tol), "EOM", lambda: f"h={h} state={y.tolist()} bank={bk} got={got.tolist()} want={want.tolist()}")
            if n % 3 == 0:
                g2 = np.array(v.EOM2(t, yn, bk), dtype=float) * S / p.tau; R.step()
                R.ok(g2.shape == (7,) and np.all(np.abs(g2 - want) <= tol), "EOM2", lambda: f"h={h} state={y.tolist()} bank={bk} got={g2.tolist()} want={want.tolist()}")
            if n % 7 == 0:
                R.outcome(b, c["veh"], tuple(np.round(want / scale, 7)))
    # force helpers
    acc_ok = 0 < h < top
    for sp, bk, th, ph in itertools.product(vs, banks, (0.0, 2.0), (0.0, -0.7)):
        CD = cdm(sp / float(A.fa(h))) if kw.get("cdmach") else CDb
        q = 0.5 * rho * sp**2
        L, D = q * CDb * ld * ar, q * CD * ar
        rb, vb = r / p.RP, sp / p.Vref
        ab = p.Vref**2 / p.RP
        if h != 0.0 and h != top:
            one = [("L", v.L(r, th, ph, sp), L), ("D", v.D(r, th, ph, sp), D), ("a_s", v.a_s(r, th, ph, sp, bk), -D / m),
                   ("a_n", v.a_n(r, th, ph, sp, bk), L * np.cos(bk) / m), ("a_w", v.a_w(r, th, ph, sp, bk), L * np.sin(bk) / m),
                   ("Lbar", v.Lbar(rb, th, ph, vb) * ab * m, L), ("Dbar", v.Dbar(rb, th, ph, vb) * ab * m, D),
                   ("a_sbar", v.a_sbar(rb, th, ph, vb, bk) * ab, -D / m), ("a_nbar", v.a_nbar(rb, th, ph, vb, bk) * ab, L * np.cos(bk) / m),
                   ("a_wbar", v.a_wbar(rb, th, ph, vb, bk) * ab, L * np.sin(bk) / m)]
            for nm, gg, ww in one:
                R.step(); R.near(gg, ww, nm, rtol=1e-6, atol=1e-9 * (abs(L) + D) / (m if nm.startswith("a_") else 1), ctx=f"h={h} v={sp} bank={bk}")
        if acc_ok:
            ra = np.array([r, r + 300.0, r - 300.0]); va = np.array([sp, sp * 0.9, sp * 1.1]); ta = np.array([th, 0, 1.0]); pa = np.array([ph, .1, -.2])
            rh = A.fd(ra - p.RP)
            CDa = cdm(va / A.fa(ra - p.RP)) if kw.get("cdmach") else CDb
            La, Da = 0.5 * rh * va**2 * CDb * ld * ar, 0.5 * rh * va**2 * CDa * ar
            keep = [x.copy() for x in (ra, va, ta, pa)]
            for nm, gg, ww in [("Lvectorized", v.Lvectorized(ra, ta, pa, va), La), ("Dvectorized", v.Dvectorized(ra, ta, pa, va), Da),
                               ("a_svectorized", v.a_svectorized(ra, ta, pa, va, bk), -Da / m), ("a_nvectorized", v.a_nvectorized(ra, ta, pa, va, bk), La * np.cos(bk) / m),
                               ("a_wvectorized", v.a_wvectorized(ra, ta, pa, va, bk), La * np.sin(bk) / m)]:
                R.step(); R.near(gg, ww, nm, rtol=1e-6, atol=1e-9 * np.max(np.abs(La) + Da) / (m if nm.startswith("a_") else 1))
            R.ok(all(np.array_equal(x, y) for x, y in zip(keep, (ra, va, ta, pa))), "input-mutated")
    # velocity, mass and area enter only through the ballistic quantities: gravity/rotation part is common
    R.state(b, c["veh"], c["hk"])
    R.sample = dict(case=c, states=n, altitude=h, density=rho)
