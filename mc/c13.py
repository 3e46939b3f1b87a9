"""C13: guided lift-modulated entries. The guidance loop is explored as a transition system: every predictor answer schedule (which cycle ends the glide and why) with the
predictor replaced by the enumerated environment, and complete flights with the real predictor; every cycle of every flight is judged against the reference flow and guidance law."""
import numpy as np
from . import ref, traj, guided
PID, LEVEL = "C13", "model_checking"
RULE = ("all predictor answer schedules (stop cycle N x stop reason, escaping/overshooting answers before, altitude-rate threshold below and above zero) x both front ends x body; complete real guided flights over body x entry angle x "
        "geometry x roll rate x cycle time x output step x gains x switch speed x altitude thresholds set by the user; every cycle's bank step, duration, continuity and hand-over decision is compared with the model; "
        "states = (body, cycle state), transitions = guidance cycles")
ASSUME = ["samples up to flight-path angle -85 deg", "entry at or below the top of the atmosphere with non-zero lift", "switch speed below the entry speed",
          "predictions within 2 % of a hand-over threshold are not judged"]
CHUNK = 1
CASE_LIMIT = 300
#        (Ghdot, Gq, v_switch, lowAlt, n, hdot_thr), (peri, apo, tol), gammas
PRM = {
 "NEPTUNE": ((75.0, 3.0, 15.0, 120.0, 101, -500.0), (4000.0, 400e3, 10e3), [-12.0, -13.0, -13.5]),
 "URANUS":  ((83.0, 9.0, 16.0, 120.0, 101, -500.0), (4000.0, 550e3, 10e3), [-11.3, -12.0]),
 "VENUS":   ((60.0, 3.0, 7.0, 60.0, 101, -200.0), (400.0, 2000.0, 50.0), [-6.5, -7.0, -7.5]),
 "MARS":    ((60.0, 3.0, 3.0, 20.0, 101, -200.0), (300.0, 2000.0, 50.0), [-8.5, -10.5, -11.2]),
 "EARTH":   ((60.0, 3.0, 7.0, 50.0, 101, -200.0), (300.0, 2000.0, 50.0), [-5.0, -5.5, -6.5]),
 "TITAN":   ((56.0, 54.0, 1.0, 100.0, 101, -1000.0), (1700.0, 1700.0, 20.0), [-34.0]),
 "SATURN":  ((75.0, 3.0, 24.0, 120.0, 101, -500.0), (4000.0, 400e3, 10e3), [-10.5]),
 "JUPITER": ((75.0, 3.0, 40.0, 120.0, 101, -500.0), (4000.0, 400e3, 10e3), [-7.5]),
}
GEO = [(0.0, 0.0, 0.0, 0.0, 0.0), (-70.0, 35.0, 120.0, 12.0, 55.0), (200.0, -50.0, -60.0, 0.0, 7.0)]   # theta, phi, psi, drange, heat


def cases(tier):
    out = []
    combos = [(1.0, 0.1, 30.0), (2.0, 0.5, 10.0), (0.5, 0.25, 5.0)]
    for b, (eg, tg, gs) in PRM.items():
        for i, g in enumerate(gs):
            for var in (1, 2):
                for k in range(3):
                    if tier == "quick" and (i + var + k) % 3 and not (b == "MARS" and i == 0 and k == 1):
                        continue
                    ts, dt, rate = combos[(k + i) % 3]
                    if b in ("TITAN",) and ts < 1:
                        ts, dt = 1.0, 0.5
                    out.append(dict(kind="real", body=b, g=g, var=var, geo=k, ts=ts, dt=dt, rate=rate))
    # one output step per guidance cycle
    for b in ("VENUS", "MARS", "NEPTUNE") if tier == "quick" else PRM:
        for var in (1, 2):
            ts = 2.0 if b in ("NEPTUNE", "TITAN") else 0.5
            out.append(dict(kind="real", body=b, g=PRM[b][2][-1], var=var, geo=1, ts=ts, dt=ts, rate=10.0))
    # atmosphere thresholds the user sets on the planet
    for b in ("MARS", "NEPTUNE", "EARTH") if tier == "quick" else PRM:
        for var in (1, 2):
            out.append(dict(kind="real", body=b, g=PRM[b][2][0], var=var, geo=var, ts=1.0, dt=0.5, rate=10.0, user=True))
    # guidance cycles of several seconds
    for b in ("URANUS", "TITAN"):
        for var in (1, 2):
            out.append(dict(kind="real", body=b, g=PRM[b][2][0], var=var, geo=2, ts=6.5, dt=0.5, rate=4.0))
    for b, g in (("VENUS", -7.0), ("MARS", -10.0)) + ((("EARTH", -5.6), ("NEPTUNE", -12.8)) if tier == "thorough" else ()):
        for var in (1, 2):
            for n in ([1, 2, 3, 5, 9, 17, 40] if tier == "quick" else list(range(1, 41))):
                out.append(dict(kind="answers", body=b, g=g, var=var, n=n))
            out.append(dict(kind="vswitch", body=b, g=g, var=var))
    return out


def mk(b, p, c, geo, heat=None, eg=None, cls=None):
    th, ph, ps, dr, hl = GEO[geo]
    cfg = dict(h0=ref.VEH[b][6], v0=ref.VEH[b][7], theta=th, phi=ph, psi=ps, gamma=c["g"], drange=dr, heat=hl)
    m, be, ld, a, al, rn = ref.VEH[b][:6]
    from AMAT.vehicle import Vehicle
    v = (cls or Vehicle)("probe", m, be, ld, a, al, rn, p)
    v.setInitialState(cfg["h0"], th, ph, cfg["v0"], ps, c["g"], dr, hl); v.setSolverParams(1e-6)
    if c.get("user"):
        ref.user_thresholds(p)
        cfg["h0"] = p.h_skip / 1e3
        v.setInitialState(cfg["h0"], th, ph, cfg["v0"], ps, c["g"], dr, hl)
    v.setMaxRollRate(c.get("rate", 20.0)); v.setEquilibriumGlideParams(*(eg or PRM[b][0])); v.setTargetOrbitParams(*PRM[b][1])
    return v, cfg


def judge(R, b, p, A, v, cfg, c, eg, answers, ctx, target=None):
    """answers: cycle -> predicted apoapsis used by the code, or None when not known (not judged)"""
    m, be, ld, a, al, rn = ref.VEH[b][:6]
    ts, dt, rate = c["ts"], c["dt"], c["rate"]
    tgt = target or PRM[b][1]
    E, H = guided.history(v, "_eg"), guided.history(v, "_full")
    t = H["t_min"]
    segs, segE = guided.segments(t), guided.segments(E["t_min"])
    nE, n = len(segE), len(segs)
    R.ok(all(len(E[k]) <= len(H[k]) and np.array_equal(E[k], H[k][:len(E[k])]) for k in guided.KEYS), "glide-is-prefix", ctx)
    bank = np.asarray(v.delta_deg_array, float); tst = np.asarray(v.t_step_array, float)
    if not R.ok(len(bank) == n and len(tst) == n, "one-bank-per-cycle", lambda: f"{ctx} {len(bank)} banks {len(tst)} times for {n} cycles"):
        return None
    R.near(tst[1:], [t[i] for i, _ in segs[1:]], "cycle-times", rtol=1e-9, atol=1e-9, ctx=ctx)
    R.ok(bank[0] == 0.0 and np.all(bank >= -1e-9) and np.all(bank <= 180 + 1e-9), "bank-range", lambda: f"{ctx} {bank.min()} {bank.max()}")
    R.ok(np.all(np.abs(np.diff(bank)) <= rate * ts + 1e-9), "roll-rate", lambda: f"{ctx} {np.abs(np.diff(bank)).max()} > {rate*ts}")
    cdm = 1.0 / be
    guided.flight(R, b, p, A, cfg, H, segs, bank, [cdm] * n, [cdm * ld] * n, rn, dt, [1.0] + [ts] * (n - 1), ctx=ctx)
    Y = guided.stateY(p, H)
    Ghdot, Gq, vsw, low, npt, thr = eg
    g0 = p.GM / p.RP**2
    CL = ld * m / (be * a)
    prev = 0.0
    for k in range(1, n):
        i, j = segs[k]
        r, vv, gam = Y[0, i], Y[3, i], Y[5, i]
        hdot = vv * np.sin(gam)
        R.step(); R.state(b, round(Y[0, i]), round(vv), round(bank[k], 3))
        if k < nE:
            q = 0.5 * float(A.dens(r - p.RP)) * vv**2
            f = 1 - vv**2 / (g0 * r)
            qref = -m * g0 / (0.75 * CL * a) * f
            cosc = m * g0 / (CL * q * a) * f - Ghdot * hdot / q + Gq * (q - qref) / q
            e = 1e-5 * (1 + abs(cosc))
            hi, lo = (np.degrees(np.arccos(np.clip(cosc + s, -1, 1))) for s in (-e, e))
            wlo, whi = (prev + np.clip(x - prev, -rate * ts, rate * ts) for x in (lo, hi))
            R.ok(wlo - 1e-6 <= bank[k] <= whi + 1e-6, "glide-bank-command", lambda: f"{ctx} cycle {k}: bank {bank[k]} expected {wlo}..{whi} from {prev}")
            hend, vend = H["h_km"][j - 1], H["v_kms"][j - 1]
            apo = answers(k, hdot) if hdot > thr else 0.0
            if apo is not None and not (hdot > thr and isinstance(apo, tuple)):
                stop = (0 < apo < tgt[1]) or abs(apo - tgt[1]) < tgt[2] or (hend > p.h_skip / 1e3 - 2.0 and hdot > 0) or vend <= vsw or j - i < 2
                R.ok(stop == (k == nE - 1), "hand-over", lambda: f"{ctx} cycle {k} of {nE-1}: predicted {apo} target {tgt} h={hend} v={vend} hdot={hdot}; expected {'stop' if stop else 'continue'}")
        else:
            want = prev + np.clip(0.0 - prev, -rate * ts, rate * ts)
            R.ok(abs(bank[k] - want) <= 1e-6, "exit-bank-command", lambda: f"{ctx} cycle {k}: {bank[k]} expected {want}")
            hi_, hend = H["h_km"][i], H["h_km"][j - 1]
            stop = hi_ > p.h_skip / 1e3 - 10.0 or hend >= p.h_skip / 1e3 or j - i < 2
            R.ok(stop == (k == n - 1), "exit-end", lambda: f"{ctx} cycle {k} of {n-1}: from {hi_} to {hend} km")
        prev = bank[k]
    st = [i for i, _ in segs]
    guided.telemetry(R, v, p, A, H, segs, nE, ctx, -m * g0 / (0.75 * CL * a) * (1 - Y[3][st]**2 / (g0 * Y[0][st])))
    dr = np.asarray(v.acc_drag_array, float)
    if R.ok(len(dr) == nE, "telemetry-length", lambda: f"{ctx} {len(dr)} drag entries for {nE} cycles"):
        R.near(dr[1:], [H["acc_net_g"][segs[k][1] - 1] / np.hypot(1.0, ld) for k in range(1, nE)], "drag-telemetry", rtol=1e-6, atol=1e-9, ctx=ctx)
    R.near([v.t_switch, v.h_switch, v.v_switch, v.p_switch], [E["t_min"][-1], E["h_km"][-1], E["v_kms"][-1], bank[nE - 1]], "switch-state", rtol=1e-12, ctx=ctx)
    K = guided.terminal(R, p, v, H, tgt, ctx)
    R.outcome(b, nE, n, round(v.terminal_apoapsis, 1))
    return dict(nE=nE, n=n, segs=segs, H=H, K=K)


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b)
    if c["kind"] == "real":
        return real(c, R, b, p, A)
    if c["kind"] == "vswitch":
        return vswitch(c, R, b, p, A)
    from AMAT.vehicle import Vehicle
    tgt = PRM[b][1]
    c = dict(c, ts=2.0, dt=0.5, rate=15.0)
    out = None
    # reasons: predicted apoapsis below target / inside the tolerance above it / tiny positive; before the stop: escape, above target, just outside the tolerance
    for reason, stop in (("below", tgt[1] * 0.5), ("tolerance", tgt[1] + 0.9 * tgt[2]), ("tiny", 1e-6), ("exact", tgt[1])):
        for pre, thr in (([-1e4], None), ([tgt[1] + 1.1 * tgt[2], -5.0, 1e7], {"below": 15.0, "tolerance": -40.0, "tiny": 120.0 if b == "VENUS" else 40.0, "exact": -1e6}.get(reason))):
            prm = list(PRM[b][0]); prm[-1] = prm[-1] if thr is None else thr        # altitude rate above which predictions are made
            log = []

            def ans(self, args):
                k = len(log)
                x = (stop if thr != -1e6 else 0.7 * stop) if k + 1 == c["n"] else pre[k % len(pre)]
                log.append((args, x))
                return x

            class S(Vehicle):
                def predictApoapsisAltitudeKm_withLiftUp(self, *args):
                    return ans(self, args)

                def predictApoapsisAltitudeKm_withLiftUp2(self, *args):
                    return ans(self, args)
            v, cfg = mk(b, p, c, 1, eg=prm, cls=S)
            getattr(v, "propogateGuidedEntry" + ("2" if c["var"] == 2 else ""))(c["ts"], c["dt"], 777.0)
            if not log:
                continue
            cnt = {}

            def answers(k, hdot):
                cnt[k] = len(cnt)
                i = cnt[k]
                return log[i][1] if i < len(log) else float("nan")
            ctx = f"answers n={c['n']} reason={reason} pre={pre[0]:.4g} threshold={prm[-1]}"
            out = judge(R, b, p, A, v, cfg, c, prm, answers, ctx)
            if out is None:
                continue
            R.ok(len(log) == len(cnt), "prediction-count", lambda: f"{ctx}: {len(log)} predictions for {len(cnt)} cycles above the altitude-rate threshold")
            # each prediction starts from the state reached at the end of its cycle, full lift up, remaining time limit
            ks = sorted(cnt)
            for i, k in enumerate(ks[:len(log)]):
                a = log[i][0]
                e = out["segs"][k][1] - 1
                H = out["H"]
                want = [H[x][e] for x in ("h_km", "theta_deg", "phi_deg", "v_kms", "gamma_deg", "psi_deg", "drange_km", "heatload")]
                if len(a) >= 11:
                    R.near(np.array(a[:8], float), want, "prediction-state", rtol=1e-9, atol=1e-9, ctx=f"{ctx} cycle {k}")
                    R.ok(a[8] == 777.0 and a[10] == 0.0, "prediction-arguments", lambda: f"{ctx} {a[8:11]}")
            if len(R.problems) > 12:
                return
    R.sample = dict(case=c, cycles=out["n"] if out else None)


def vswitch(c, R, b, p, A):
    c = dict(c, ts=1.0, dt=0.5, rate=30.0)
    for frac in (0.999, 0.99, 0.97, 0.93, 0.88, 0.8):
        eg = list(PRM[b][0]); eg[2] = ref.VEH[b][7] * frac
        v, cfg = mk(b, p, c, 2, eg=eg)
        getattr(v, "propogateGuidedEntry" + ("2" if c["var"] == 2 else ""))(c["ts"], c["dt"], 1500.0)
        judge(R, b, p, A, v, cfg, c, eg, lambda k, hdot: None, f"v_switch={eg[2]:.3f}")
        E = guided.history(v, "_eg")
        segE = guided.segments(E["t_min"])
        for k, (i, j) in enumerate(segE[1:-1], 1):
            R.ok(E["v_kms"][j - 1] > eg[2], "switch-speed-ignored", lambda: f"cycle {k} ended at {E['v_kms'][j-1]} below {eg[2]}")
    R.sample = dict(case=c, last=eg[2])


def real(c, R, b, p, A):
    v, cfg = mk(b, p, c, c["geo"])
    nm = "propogateGuidedEntry" + ("2" if c["var"] == 2 else "")
    T = 1500.0
    getattr(v, nm)(c["ts"], c["dt"], T)
    eg, tgt = PRM[b][0], PRM[b][1]
    H = guided.history(v, "_full"); segs = guided.segments(H["t_min"]); nE = len(guided.segments(v.t_min_eg))
    Y = guided.stateY(p, H)
    hd = {k: Y[3, i] * np.sin(Y[5, i]) for k, (i, j) in enumerate(segs) if 0 < k < nE}
    first = next((k for k in sorted(hd) if hd[k] > eg[5]), None)
    pred = {}
    if first is not None:
        # rebuild the density measurements from the recorded flight, then predict on a fresh vehicle
        be, ld = ref.VEH[b][1:3]
        hs, ds = [0.0], [0.0]
        for k in range(1, first + 1):
            i, j = segs[k]
            hs.append(H["h_km"][i])
            drag = H["acc_net_g"][j - 1] / np.hypot(1.0, ld)
            ds.append(2 * be * drag * ref.G0 / (0.5 * (Y[3, i] + Y[3, j - 1]))**2)
        w, _ = mk(b, ref.mk_planet(b), c, c["geo"])
        f, mn = w.createDensityMeasuredFunction(np.array(hs), np.array(ds), eg[3], eg[4])
        R.near(np.asarray(v.h_step_array)[1:first + 1], hs[1:], "measured-altitudes", rtol=1e-9)
        R.near(np.asarray(v.density_mes_array)[1:first + 1], ds[1:], "measured-densities", rtol=1e-6, atol=1e-15)
        todo = [k for k in range(first, nE)]
        todo = sorted(set(todo[-3:] + todo[:2] + todo[::max(1, len(todo) // 8)]))
        for k in todo:
            e = segs[k][1] - 1
            args = [H[x][e] for x in ("h_km", "theta_deg", "phi_deg", "v_kms", "gamma_deg", "psi_deg", "drange_km", "heatload")]
            u = traj.util_dict(w.propogateEntry_util(*args, T, c["dt"], 0.0, f))
            X, V = ref.inertial(p.OMEGA, p.RP + u["h_km"][-1] * 1e3, u["v_kms"][-1] * 1e3, np.radians(u["gamma_deg"][-1]), np.radians(u["theta_deg"][-1]), np.radians(u["phi_deg"][-1]), np.radians(u["psi_deg"][-1]))
            pred[k] = (ref.kepler(p.GM, X, V)["ra"] - p.RP) / 1e3

    def answers(k, hdot):
        a = pred.get(k)
        if a is None:
            return None
        near = any(abs(a - x) <= 0.02 * abs(x) * (0.02 if x == tgt[1] + tgt[2] else 1) + 1e-9 for x in (tgt[1] - tgt[2], tgt[1] + tgt[2])) and abs(a - tgt[1]) > tgt[2] * 0.5
        if near or abs(a) < 1.0:
            return None
        return a
    out = judge(R, b, p, A, v, cfg, c, eg, answers, "real")
    R.sample = dict(case=c, cycles=out and out["n"], glide=out and out["nE"], apoapsis=float(v.terminal_apoapsis))
