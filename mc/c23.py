"""C23: link budgets. Full product of antenna descriptions and link parameters over small alphabets; every budget is recomputed from the Friis equation in linear units."""
import itertools, re
import numpy as np
from . import ref
PID, LEVEL = "C23", "model_checking"
RULE = ("full product transmit antenna x receive antenna (each: gain given, zero or negative gain, diameter and efficiency, both given, a diameter without its efficiency, an efficiency without a diameter; "
        "receive and transmit descriptions always different) x frequency x power x temperature x range x rate x loss set (defaults or each loss alone); distinct = links")
ASSUME = ["powers, temperatures, ranges and rates are positive; each antenna is described by a gain or by diameter and efficiency"]
CHUNK = 1
K, C0 = 1.38e-23, 3e8
ANT_T = [dict(Gt_dBi=47.2), dict(Gt_dBi=0.0), dict(Gt_dBi=-3.5), dict(Dt=4.0, eta_t=0.6), dict(Dt=0.35, eta_t=1.0), dict(Dt=0.02, eta_t=0.5), dict(Dt=2.1, eta_t=0.55, Gt_dBi=11.0), dict(Dt=2.5, Gt_dBi=13.0), dict(eta_t=0.5, Gt_dBi=9.0)]
ANT_R = [dict(Gr_dBi=68.24), dict(Gr_dBi=0.0), dict(Gr_dBi=-1.25), dict(Dr=34.0, eta_r=0.7), dict(Dr=0.8, eta_r=0.45), dict(Dr=0.05, eta_r=0.3), dict(Dr=70.0, eta_r=0.65, Gr_dBi=22.0), dict(Dr=3.5, Gr_dBi=17.0), dict(eta_r=0.4, Gr_dBi=6.0)]
LOSS = [dict(), dict(Lt_dB=0.0), dict(Lt_dB=2.3), dict(L_sc_dB=0.0), dict(L_sc_dB=1.7), dict(La_dB=0.0), dict(La_dB=2.9), dict(L_DSN_dB=0.0), dict(L_DSN_dB=3.1), dict(Lt_dB=0.1, L_sc_dB=0.7, La_dB=1.9, L_DSN_dB=4.3)]


def cases(tier):
    return [dict(t=i, r=j, tier=tier) for i in range(len(ANT_T)) for j in range(len(ANT_R))]


def gain(a, s, lam):
    if a.get("D" + s) and a.get("eta_" + s):
        return a["eta_" + s] * (np.pi * a["D" + s] / lam)**2, True
    return 10**(a["G%s_dBi" % s] / 10), False


def dB(x):
    return 10 * np.log10(x)


def run(c, R):
    from AMAT.telecom import Link
    at, ar = ANT_T[c["t"]], ANT_R[c["r"]]
    full = c["tier"] == "thorough"
    F = (0.405, 8.425, 32.0) + ((2.04, 1.0) if full else ())
    P = (0.5, 20.0, 300.0); T = (40.5, 273.0); D = (80.625, 1.5e9, 4.0e9, 1e-6) if full else (80.625, 1.5e9, 1e-6)
    for f, p, ts, d, rate, oth, req, L in itertools.product(F, P, T, D, (0.2, 14.0, 7500.0), (0.0, 0.55, -2.25), (0.31, -1.6), LOSS):
        if d < 1e-3 and (p != 20.0 or rate != 14.0) or oth < 0 and (p != 20.0 or ts != 40.5):    # closer than a wavelength: the free-space term changes sign; a negative loss is a gain
            continue
        kw = dict(freq=f, Pt=p, Ts=ts, range_km=d, L_other_dB=oth, rate_kbps=rate, Eb_N0_req=req, **at, **ar, **L)
        k = Link(**kw); R.step()
        lam = C0 / (f * 1e9)
        gt, dt = gain(at, "t", lam); gr, dr = gain(ar, "r", lam)
        loss = sum(L.get(n, v) for n, v in (("Lt_dB", 1.0), ("L_sc_dB", 0.2), ("La_dB", 0.35), ("L_DSN_dB", 1.0))) + oth
        ebn0 = dB(p * gt * gr * (lam / (4 * np.pi * d * 1e3))**2 / (K * ts * rate * 1e3)) - loss
        ctx = lambda: str(kw)
        R.near(k.EB_N0, ebn0, "eb-n0", atol=1e-8, ctx=ctx)
        R.near(k.EB_N0_margin, ebn0 - req, "margin", atol=1e-8, ctx=ctx)
        if rate == 14.0 and oth and p == 20.0:
            for n, w in dict(freq=f * 1e9, wavelength=lam, Pt=p, Pt_dB=dB(p), Gt_dBi=dB(gt), Gr_dBi=dB(gr), Ts=ts, Ts_dBK=dB(ts), range=d * 1e3,
                             Ls_dB=dB((4 * np.pi * d * 1e3 / lam)**2), Ka=K, Ka_dB=dB(K), R=rate * 1e3, R_dBHz=dB(rate * 1e3), EB_N0_req=req, L_other_dB=oth,
                             Lt_dB=L.get("Lt_dB", 1.0), L_sc_dB=L.get("L_sc_dB", 0.2), La_dB=L.get("La_dB", 0.35), L_DSN_dB=L.get("L_DSN_dB", 1.0)).items():
                R.near(getattr(k, n), w, "term:" + n, rtol=1e-11, atol=1e-10 if abs(w) < 1e20 and n != "Ka" else 0, ctx=ctx)
            for s, a, g, big in (("t", at, gt, dt), ("r", ar, gr, dr)):
                if big:
                    R.near(getattr(k, "D" + s), a["D" + s], "antenna", rtol=1e-12, ctx=ctx)
                    R.near(getattr(k, "A" + s), np.pi / 4 * a["D" + s]**2, "antenna", rtol=1e-12, ctx=ctx)
                    R.near(getattr(k, "G" + s), g, "antenna", rtol=1e-12, ctx=ctx)
            printed(R, k, ebn0, req, ctx, {"Frequency, GHz": f, "Transmitter Power, W": p, "Transmitter Power, dB": dB(p), "Transmitter Loss, dB": L.get("Lt_dB", 1.0),
                    "S/C Circuit Loss, dB": L.get("L_sc_dB", 0.2), "Transmitter Gain, dBi": dB(gt), "Receiver Gain, dBi": dB(gr), "System Noise Temp, K": ts, "System Noise Temp, dBK": dB(ts),
                    "Link Distance, km": d, "Free Space Loss, dB": dB((4 * np.pi * d * 1e3 / lam)**2), "Atmospheric Loss, dB": L.get("La_dB", 0.35), "Other Losses, dB": oth,
                    "Boltzmann's const, dB": -dB(K), "Data rate, kbps": rate, "Data rate, dBhz": dB(rate * 1e3)})
            # laws: halving the distance gains 6.02 dB, doubling the rate costs 3.01 dB, a decade of power gains 10
            for ch, gain_dB in ((dict(range_km=d / 2), 20 * np.log10(2)), (dict(rate_kbps=2 * rate), -dB(2)), (dict(Pt=10 * p), 10.0), (dict(Ts=ts / 4), dB(4))):
                R.near(Link(**{**kw, **ch}).EB_N0 - k.EB_N0, gain_dB, "law", atol=1e-8, ctx=lambda: f"{ch} {kw}")
            R.near(k.EB_N0, ebn0, "links-independent", atol=1e-8, ctx=ctx)
        R.state(c["t"], c["r"], f, p, ts, d, rate, oth, req, tuple(L.items())); R.outcome(round(ebn0, 6))
    R.sample = dict(case=c, eb_n0=float(ebn0))


def printed(R, k, e, req, ctx, lines):
    R.stdout.seek(0); R.stdout.truncate()
    k.print_link_budget()
    out = R.stdout.getvalue()
    R.stdout.seek(0); R.stdout.truncate()
    for pat, w in ((r"Available\s+Eb/N0:\s*(\S+)", e), (r"Required\s+Eb/N0:\s*(\S+)", req), (r"Margin:\s*(\S+)", e - req)):
        m = re.search(pat, out)
        if m:
            try:
                R.near(float(m.group(1)), w, "printed", atol=0.0051, ctx=ctx)
            except ValueError:
                R.fail("printed", f"{m.group(0)} {ctx()}")
    # the itemised lines; a loss may be written with a leading minus sign, so the magnitude is judged
    for label, w in lines.items():
        m = re.search(re.escape(label) + r":\s*[+-]*([0-9.]+(?:e[+-]?[0-9]+)?)", out)
        if m:
            R.near(float(m.group(1)), abs(w), "printed-line", rtol=1e-9, atol=0.0051, ctx=lambda: f"{label} {ctx()}")
