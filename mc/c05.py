"""C05: loads, heating and flow histories of every flight of a complete grid, recomputed from the samples by an independent model."""
import numpy as np
from . import ref, traj
from .c04 import GEO, DG
PID, LEVEL = "C05", "exploration"
RULE = ("full product body x entry angle (escape, capture, steep) x bank (all quadrants) x vehicle (lifting, ballistic, negative lift, CD(Mach)) x both front ends and the two "
        "stand-alone helpers, plus a direct product of radius x speed arrays (lengths 1..4, above/below the atmosphere); every sample judged; distinct = load tuples")
ASSUME = ["heat load integrated with the trapezoidal rule on the output samples", "array look-ups give zero density above the table", "no samples below the lowest altitude of the table"]
CHUNK = 1


def cdm(M):
    return 1.3 + 0.25 * np.exp(-np.asarray(M) / 6.0)


VEHS = [dict(), dict(LD=0.0, mass=310.0, beta=41.0, A=3.3, RN=0.35), dict(LD=-0.2, RN=0.4, beta=77.0), dict(cdmach=cdm, LD=0.18)]
BANKS = [0.0, 37.0, 90.0, 180.0, -50.0, 200.0]


def cases(tier):
    out = []
    for b in ref.BODIES:
        for vi in range(len(VEHS)):
            out.append(dict(kind="direct", body=b, veh=vi))
            for dg in range(3):
                for bank in BANKS:
                    if tier == "quick" and (vi + dg + BANKS.index(bank)) % 2:
                        continue
                    out.append(dict(kind="flight", body=b, veh=vi, dg=dg, bank=bank, geo=(vi + dg) % 4))
    return out


def expect(b, A, v, kw, rc, vc, dens=None):
    m, be, ld, ar, rn = (kw.get("mass", ref.VEH[b][0]), kw.get("beta", ref.VEH[b][1]), kw.get("LD", ref.VEH[b][2]), kw.get("A", ref.VEH[b][3]), kw.get("RN", ref.VEH[b][5]))
    CDb = m / (be * ar)
    h = rc - A.RP
    w = traj.loads(b, A, rc, vc, CDb, ld, ar, m, rn, dens)
    if "cdmach" in kw:
        CD = cdm(vc / A.fa(h))
        q = 0.5 * (A.fd(h) if dens is None else dens(h)) * vc**2
        w["acc_drag_g"] = q * CD * ar / m / ref.G0
        w["acc_net_g"] = np.hypot(w["acc_drag_g"], q * CDb * ld * ar / m / ref.G0)
    return w


def judge(R, want, got, sig, table_ok):
    for k, x in want.items():
        if k not in got:
            continue
        g = np.asarray(got[k], float)
        if not R.ok(g.shape == x.shape, f"{sig}-{k}-shape", lambda: f"{g.shape} {x.shape}"):
            continue
        R.near(g[table_ok], x[table_ok], f"{sig}-{k}", rtol=2e-6, atol=1e-9 * float(np.nanmax(np.abs(x[table_ok]))) if table_ok.any() else 0)


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b)
    kw = VEHS[c["veh"]]
    if c["kind"] == "direct":
        return direct(c, R, b, p, A, kw)
    th, ph, ps, dr = GEO[c["geo"]]
    bank = c["bank"]
    for heat in (0.0, 250.0):
        for variant in (1, 2):
            nm = ("propogateEntry", "propogateEntry2")[variant - 1]
            st = dict(theta=th, phi=ph, psi=ps, drange=dr, gamma=ref.VEH[b][8] * DG[c["dg"]])
            v = ref.mk_vehicle(p, heat=heat, **st, **kw)
            T = 500.0 if b in ("VENUS", "EARTH", "MARS") else 900.0
            getattr(v, nm)(T, 1.5, bank); R.step()
            ok = (v.rc - p.RP > A.h[0]) & np.isfinite(v.rc) & (v.vc > 0) & (v.vc < 1e6)
            k = traj.regular(v.gammac, -89.0)
            ok[k:] = False
            if not ok.any():
                continue
            want = expect(b, A, v, kw, v.rc, v.vc)
            got = {k2: getattr(v, k2) for k2 in want}
            judge(R, want, got, nm, ok)
            # heat load: integral from heatLoad0, non-decreasing
            hl = np.asarray(v.heatload, float)
            qs = np.asarray(v.q_stag_total, float)
            if R.ok(hl.shape == v.tc.shape, nm + "-heatload-shape"):
                wl = traj.trapz_load(want["q_stag_total"], v.tc, heat)
                R.near(hl[:k], wl[:k], nm + "-heatload", rtol=3e-6, atol=1e-9 * (1 + abs(wl[:k]).max()))
                R.ok(np.all(np.diff(hl[:k]) >= -1e-12) and hl[0] == heat, nm + "-heatload-monotone")
            R.near(v.computeEnergy(v.rc, v.vc), -p.GM / v.rc + v.vc**2 / 2, nm + "-energy", rtol=1e-9)
            ut = ("propogateEntry_util", "propogateEntry_util2")[variant - 1]
            f = (lambda q: (lambda h: 0.8 * q(h)))(p.density_int)
            u = traj.util_dict(getattr(v, ut)(v.h0_km, th, ph, v.v0_kms, st["gamma"], ps, dr, heat, T, 1.5, bank, f)); R.step()
            rc, vc, tc = u["h_km"] * 1e3 + p.RP, u["v_kms"] * 1e3, u["t_min"] * 60
            k = traj.regular(np.radians(u["gamma_deg"]), -89.0)
            ok2 = (rc - p.RP > A.h[0]) & (np.arange(len(rc)) < k)
            if ok2.any():
                want = expect(b, A, v, kw, rc, vc, dens=lambda h: 0.8 * A.fd(h))
                judge(R, want, u, ut, ok2)
                wl = traj.trapz_load(want["q_stag_total"], tc, heat)
                R.near(np.asarray(u["heatload"])[:k], wl[:k], ut + "-heatload", rtol=3e-6, atol=1e-9 * (1 + abs(wl[:k]).max()))
            for i in range(0, len(v.rc), 20):
                R.outcome(b, c["veh"], bank, float(np.round(v.acc_net_g[i], 4)), float(np.round(v.q_stag_total[i], 3)))
            R.state(b, c["veh"], c["dg"], bank, heat, variant)
            # a vehicle about to leave the atmosphere: a history of one sample
            v.setInitialState(p.h_skip / 1e3 - 1e-3, th, ph, v.v0_kms, ps, 8.0, dr, heat)
            getattr(v, nm)(300.0, 100.0, bank); R.step()
            if R.ok(np.shape(v.heatload) == np.shape(v.tc) and len(v.tc) >= 1, nm + "-heatload-shape", "one-sample history"):
                R.near(v.heatload[0], heat, nm + "-heatload", ctx="one-sample history")
                want = expect(b, A, v, kw, v.rc, v.vc)
                judge(R, want, {k2: getattr(v, k2) for k2 in want}, nm, (v.rc - p.RP > A.h[0]) & (v.rc - p.RP < A.h[-1]))
                R.outcome("short", b, len(v.tc))
    R.sample = dict(case=c, n=len(v.rc), peak_g=float(v.acc_net_g.max()), peak_q=float(v.q_stag_total.max()), heatload=float(v.heatload[-1]))


def direct(c, R, b, p, A, kw):
    v = ref.mk_vehicle(p, **kw)
    top = A.h[-1]
    hs = np.array([A.h[0] + 10.0, 0.1 * top, 0.37 * top, 0.61 * top, 0.93 * top, top + 1e4])
    vs = np.array([200.0, 0.4 * p.Vref, p.Vref, 1.7 * p.Vref])
    for n in (1, 2, 4):
        for i in range(len(hs)):
            for j in range(len(vs)):
                h = hs[(i + np.arange(n)) % len(hs)]; sp = vs[(j + np.arange(n) * 3) % len(vs)]
                rc = h + p.RP
                keep = rc.copy(), sp.copy()
                want = expect(b, A, v, kw, rc, sp)
                t = np.arange(n) * 2.0; z = np.zeros(n)
                for bk in (0.0, 0.6, np.pi, -2.0):
                    R.near(v.computeAccelerationLoad(t, rc, z, z, sp, n, bk), want["acc_net_g"], "computeAccelerationLoad", rtol=2e-6, atol=1e-12)
                    R.near(v.computeAccelerationDrag(t, rc, z, z, sp, n, bk), want["acc_drag_g"], "computeAccelerationDrag", rtol=2e-6, atol=1e-12)
                    R.step(2)
                R.near(v.computeDynPres(rc, sp), want["dyn_pres_atm"] * traj.ATMPA, "computeDynPres", rtol=2e-6, atol=1e-14)
                R.near(v.computeStagPres(rc, sp), want["stag_pres_atm"] * traj.ATMPA, "computeStagPres", rtol=2e-6, atol=1e-14)
                R.near(v.convertToKPa(sp), sp / 1e3, "convertToKPa"); R.near(v.convertToPerCm2(sp), sp / 1e4, "convertToPerCm2")
                M = sp / A.fa(h)
                R.near(v.computeMach(rc, sp), M, "computeMach", rtol=2e-6, atol=1e-14)
                R.near(v.computeMachScalar(float(rc[0]), float(sp[0])), M[0], "computeMachScalar", rtol=2e-6, atol=1e-14)
                R.near(v.computeStagTemp(rc, sp), A.fT(h) * (1 + 0.5 * (ref.CONST[b][4] - 1) * M**2), "computeStagTemp", rtol=2e-6, atol=1e-9)
                R.near(v.computeEnergy(rc, sp), sp**2 / 2 - p.GM / rc, "computeEnergy", rtol=1e-9)
                R.step(7)
                R.ok(np.array_equal(keep[0], rc) and np.array_equal(keep[1], sp), "input-mutated")
                R.outcome(b, c["veh"], n, i, j, float(want["acc_net_g"][0]))
    R.state("direct", b, c["veh"])
