"""C14: guided drag-modulated entries. The guidance loop is explored as a transition system: every predictor answer schedule (which cycle jettisons and why) with the predictor
replaced by the enumerated environment, and complete flights with the real predictor; every cycle is judged against the reference flow at the ballistic coefficient that must be flown."""
import numpy as np
from . import ref, traj, guided
PID, LEVEL = "C14", "model_checking"
RULE = ("all predictor answer schedules (jettison cycle N x reason, escaping/overshooting answers before, altitude-rate threshold below and above zero) x both front ends x body; complete real guided flights over body x entry angle x geometry x "
        "ballistic coefficients x cycle times (entry and exit different) x output step x switch speed x altitude thresholds set by the user; every cycle's duration, continuity, ballistic coefficient and jettison decision is compared "
        "with the model; states = (body, cycle state), transitions = guidance cycles")
ASSUME = ["ballistic vehicle (L/D = 0)", "samples up to flight-path angle -85 deg", "switch speed below the entry speed", "predictions within 2 % of a jettison threshold are not judged"]
CHUNK = 1
CASE_LIMIT = 300
# v0, h0, RN, mass, A, (v_switch, lowAlt, n, thr), (peri, apo, tol), gammas
PRM = {
 "VENUS": (11.0, 150.0, 0.2, 64.4, 0.8, (2.0, 20.0, 101, -300.0), (200.0, 2000.0, 20.0), [-5.2, -5.4, -5.7]),
 "MARS":  (5.4, 120.0, 0.4, 68.2, 1.8, (2.0, 15.0, 101, -200.0), (200.0, 2000.0, 20.0), [-8.6, -9.2, -9.8]),
 "EARTH": (9.8, 120.0, 0.06, 26.0, 0.2, (5.0, 50.0, 101, -200.0), (180.0, 1760.0, 50.0), [-4.4, -4.9, -5.3]),
 "TITAN": (6.0, 1000.0, 1.0, 2000.0, 12.0, (1.0, 50.0, 101, -1000.0), (1700.0, 1700.0, 50.0), [-33.0, -35.0]),
}
GEO = [(0.0, 0.0, 0.0, 0.0, 0.0), (-70.0, 35.0, 120.0, 12.0, 55.0), (200.0, -50.0, -60.0, 0.0, 7.0)]
BETAS = {"VENUS": [(38.0, 7.5), (20.0, 4.0), (30.0, 1.3)], "MARS": [(20.0, 7.5), (33.0, 4.0), (25.0, 1.3)], "EARTH": [(66.4, 4.72), (40.0, 8.0), (50.0, 1.3)], "TITAN": [(50.0, 5.0), (30.0, 3.0), (40.0, 1.3)]}

SHALLOW = {"VENUS": -5.2, "MARS": -7.6, "EARTH": -3.2}


def cases(tier):
    out = []
    combos = [(1.0, 1.0, 0.1), (0.5, 2.0, 0.25), (2.0, 1.0, 0.5)]
    for b, q in PRM.items():
        for i, g in enumerate(q[7]):
            for var in (1, 2):
                for k in range(3):
                    for be in (0, 1):
                        if tier == "quick" and ((i + var + k) % 3 or (be and i != 1)):
                            continue
                        te, tx, dt = combos[(k + i) % 3]
                        if b == "TITAN":
                            te, tx, dt = max(1.0, te), 2.0, 0.5
                        out.append(dict(kind="real", body=b, g=g, var=var, geo=k, te=te, tx=tx, dt=dt, be=be))
    # one output step per guidance cycle
    for b in ("VENUS", "MARS") if tier == "quick" else PRM:
        for var in (1, 2):
            te = 2.0 if b == "TITAN" else 0.5
            out.append(dict(kind="real", body=b, g=PRM[b][7][1], var=var, geo=1, te=te, tx=te, dt=te, be=0))
    # atmosphere thresholds the user sets on the planet
    for b in ("MARS", "EARTH", "TITAN") if tier == "quick" else PRM:
        for var in (1, 2):
            out.append(dict(kind="real", body=b, g=round(PRM[b][7][0] * (0.82 if var == 1 else 0.9), 2), var=var, geo=var, te=1.0, tx=2.0, dt=0.5, be=0, user=True))
    # hardly any difference between the two coefficients; long histories of short output steps
    for b in ("VENUS", "MARS", "EARTH") if tier == "quick" else PRM:
        for var in (1, 2):
            out.append(dict(kind="real", body=b, g=PRM[b][7][0 if b == "VENUS" else 1], var=var, geo=2, te=1.0, tx=1.0, dt=0.05 if b == "MARS" else 0.5, be=2))
    for b, g in (("VENUS", -5.5), ("MARS", -9.4)) + ((("EARTH", -4.9),) if tier == "thorough" else ()):
        for var in (1, 2):
            for n in ([1, 2, 3, 5, 9, 17, 40] if tier == "quick" else list(range(1, 41))):
                out.append(dict(kind="answers", body=b, g=g, var=var, n=n))
            out.append(dict(kind="vswitch", body=b, g=g, var=var))
    return out


def mk(b, p, c, geo, ph=None, cls=None, be=0):
    th, phi, ps, dr, hl = GEO[geo]
    v0, h0, rn, m, a, prm, tgt, _ = PRM[b]
    cfg = dict(h0=h0, v0=v0, theta=th, phi=phi, psi=ps, gamma=c["g"], drange=dr, heat=hl)
    from AMAT.vehicle import Vehicle
    b1, ratio = BETAS[b][be]
    v = (cls or Vehicle)("probe", m, b1 if geo else 150.0, 0.0, a, 0.4 * geo, rn, p)     # the configured coefficient must not matter
    v.setInitialState(h0, th, phi, v0, ps, c["g"], dr, hl); v.setSolverParams(1e-6)
    if c.get("user"):
        ref.user_thresholds(p)
        cfg["h0"] = p.h_skip / 1e3
        v.setInitialState(cfg["h0"], th, phi, v0, ps, c["g"], dr, hl)
    v.setDragModulationVehicleParams(b1, ratio); v.setDragEntryPhaseParams(*(ph or prm)); v.setTargetOrbitParams(*tgt)
    return v, cfg


def planet(b):
    p = ref.mk_planet(b)
    if b == "VENUS":
        p.h_skip = 150e3
    return p


def judge(R, b, p, A, v, cfg, c, prm, answers, ctx, be=0):
    b1, ratio = BETAS[b][be]
    te, tx, dt = c["te"], c["tx"], c["dt"]
    tgt = PRM[b][6]
    E, H = guided.history(v, "_en"), guided.history(v, "_full")
    segs, segE = guided.segments(H["t_min"]), guided.segments(E["t_min"])
    nE, n = len(segE), len(segs)
    R.ok(all(len(E[k]) <= len(H[k]) and np.array_equal(E[k], H[k][:len(E[k])]) for k in guided.KEYS), "entry-is-prefix", ctx)
    tst = np.asarray(v.t_step_array, float)
    if R.ok(len(tst) == n, "one-step-per-cycle", lambda: f"{ctx} {len(tst)} times for {n} cycles"):
        R.near(tst[1:], [H["t_min"][i] for i, _ in segs[1:]], "cycle-times", rtol=1e-9, atol=1e-9, ctx=ctx)
    dd = [1.0 / b1] * nE + [1.0 / (b1 * ratio)] * (n - nE)
    guided.flight(R, b, p, A, cfg, H, segs, [0.0] * n, dd, [0.0] * n, PRM[b][2], dt, [1.0] + [te] * (nE - 1) + [tx] * (n - nE), ctx=ctx)
    Y = guided.stateY(p, H)
    vsw, low, npt, thr = prm
    R.ok(n > nE, "no-exit-phase", ctx)
    for k in range(1, n):
        i, j = segs[k]
        hdot = Y[3, i] * np.sin(Y[5, i])
        hi_, hend, vend = H["h_km"][i], H["h_km"][j - 1], H["v_kms"][j - 1]
        R.step(); R.state(b, be, round(Y[0, i]), round(Y[3, i]), k < nE)
        if k < nE:
            apo = answers(k, hdot) if hdot > thr else 0.0
            if apo is not None:
                stop = (0 < apo < tgt[1]) or abs(apo - tgt[1]) < tgt[2] or (hend > p.h_skip / 1e3 - 1.0 and hdot > 0) or vend <= vsw or j - i < 2
                R.ok(stop == (k == nE - 1), "jettison", lambda: f"{ctx} cycle {k} of {nE-1}: predicted {apo} target {tgt} h={hend} v={vend} hdot={hdot}; expected {'jettison' if stop else 'continue'}")
        else:
            stop = hi_ > p.h_skip / 1e3 - 1.0 or hi_ < 20.0 or hend >= p.h_skip / 1e3 or j - i < 2
            R.ok(stop == (k == n - 1), "exit-end", lambda: f"{ctx} cycle {k} of {n-1}: from {hi_} to {hend} km")
    guided.telemetry(R, v, p, A, H, segs, nE, ctx)
    dr = np.asarray(v.acc_drag_array, float)
    if R.ok(len(dr) == nE, "telemetry-length", lambda: f"{ctx} {len(dr)} drag entries for {nE} cycles"):
        R.near(dr[1:], [H["acc_net_g"][segs[k][1] - 1] for k in range(1, nE)], "drag-telemetry", rtol=1e-6, atol=1e-9, ctx=ctx)
    R.near([v.t_switch, v.h_switch, v.v_switch], [E["t_min"][-1], E["h_km"][-1], E["v_kms"][-1]], "switch-state", rtol=1e-12, ctx=ctx)
    R.ok(v.beta1 == b1 and v.betaRatio == ratio, "coefficients-changed", ctx)
    guided.terminal(R, p, v, H, tgt, ctx)
    R.outcome(b, be, nE, n, round(v.terminal_apoapsis, 1))
    return dict(nE=nE, n=n, segs=segs, H=H)


def fly(v, c, T):
    getattr(v, "propogateGuidedEntryD" + ("2" if c["var"] == 2 else ""))(c["te"], c["tx"], c["dt"], T)


def run(c, R):
    b = c["body"]
    p = planet(b); A = ref.Atmos(b)
    if c["kind"] == "real":
        return real(c, R, b, p, A)
    if c["kind"] == "vswitch":
        return vswitch(c, R, b, p, A)
    from AMAT.vehicle import Vehicle
    tgt = PRM[b][6]
    c = dict(c, te=1.0, tx=2.0, dt=0.5)
    out = None
    for reason, stop in (("below", tgt[1] * 0.5), ("tolerance", tgt[1] + 0.9 * tgt[2]), ("tiny", 1e-6), ("exact", tgt[1])):
        for pre, thr in (([-1e4], None), ([tgt[1] + 1.1 * tgt[2], -5.0, 1e7], {"below": 15.0, "tolerance": -40.0, "tiny": 120.0, "exact": -1e6}.get(reason))):
            prm = list(PRM[b][5]); prm[-1] = prm[-1] if thr is None else thr        # altitude rate above which predictions are made
            log = []

            def ans(args):
                k = len(log)
                x = (stop if thr != -1e6 else 0.7 * stop) if k + 1 == c["n"] else pre[k % len(pre)]
                log.append((args, x))
                return x

            class S(Vehicle):
                def predictApoapsisAltitudeKm_afterJettision(self, *args):
                    return ans(args)

                def predictApoapsisAltitudeKm_afterJettision2(self, *args):
                    return ans(args)
            # a positive threshold is only ever crossed by an entry that climbs again before jettison
            cc = dict(c, g=SHALLOW[b]) if thr is not None and thr > 0 else c
            v, cfg = mk(b, p, cc, 1, ph=prm, cls=S)
            fly(v, c, 777.0)
            if not log:
                continue
            cnt = {}

            def answers(k, hdot):
                cnt[k] = len(cnt)
                return log[cnt[k]][1] if cnt[k] < len(log) else float("nan")
            ctx = f"answers n={c['n']} reason={reason} pre={pre[0]:.4g} threshold={prm[-1]}"
            out = judge(R, b, p, A, v, cfg, c, prm, answers, ctx)
            R.ok(len(log) == len(cnt), "prediction-count", lambda: f"{ctx}: {len(log)} predictions for {len(cnt)} cycles above the altitude-rate threshold")
            H = out["H"]
            for i, k in enumerate(sorted(cnt)[:len(log)]):
                a = log[i][0]
                e = out["segs"][k][1] - 1
                want = [H[x][e] for x in ("h_km", "theta_deg", "phi_deg", "v_kms", "gamma_deg", "psi_deg", "drange_km", "heatload")]
                if len(a) >= 11:
                    R.near(np.array(a[:8], float), want, "prediction-state", rtol=1e-9, atol=1e-9, ctx=f"{ctx} cycle {k}")
                    R.ok(a[8] == 777.0, "prediction-arguments", lambda: f"{ctx} {a[8:11]}")
            if len(R.problems) > 12:
                return
    R.sample = dict(case=c, cycles=out and out["n"])


def vswitch(c, R, b, p, A):
    c = dict(c, te=1.0, tx=1.0, dt=0.5)
    for frac in (0.999, 0.99, 0.97, 0.93, 0.88, 0.8):
        prm = (PRM[b][0] * frac,) + PRM[b][5][1:]
        v, cfg = mk(b, p, c, 2, ph=prm)
        fly(v, c, 1500.0)
        judge(R, b, p, A, v, cfg, c, prm, lambda k, hdot: None, f"v_switch={prm[0]:.3f}")
        E = guided.history(v, "_en")
        for k, (i, j) in enumerate(guided.segments(E["t_min"])[1:-1], 1):
            R.ok(E["v_kms"][j - 1] > prm[0], "switch-speed-ignored", lambda: f"cycle {k} ended at {E['v_kms'][j-1]} below {prm[0]}")
    R.sample = dict(case=c, last=prm[0])


def real(c, R, b, p, A):
    v, cfg = mk(b, p, c, c["geo"], be=c["be"])
    T = 1500.0
    fly(v, c, T)
    prm, tgt = PRM[b][5], PRM[b][6]
    H = guided.history(v, "_full"); segs = guided.segments(H["t_min"]); nE = len(guided.segments(v.t_min_en))
    Y = guided.stateY(p, H)
    hd = {k: Y[3, i] * np.sin(Y[5, i]) for k, (i, j) in enumerate(segs) if 0 < k < nE}
    first = next((k for k in sorted(hd) if hd[k] > prm[3]), None)
    pred = {}
    if first is not None:
        b1, ratio = BETAS[b][c["be"]]
        hs, ds = [0.0], [0.0]
        for k in range(1, first + 1):
            i, j = segs[k]
            hs.append(H["h_km"][i])
            ds.append(2 * b1 * H["acc_net_g"][j - 1] * ref.G0 / (0.5 * (Y[3, i] + Y[3, j - 1]))**2)
        R.near(np.asarray(v.h_step_array)[1:first + 1], hs[1:], "measured-altitudes", rtol=1e-9)
        R.near(np.asarray(v.density_mes_array)[1:first + 1], ds[1:], "measured-densities", rtol=1e-6, atol=1e-15)
        # independent prediction: a ballistic vehicle at the high coefficient in the measured atmosphere
        p2 = planet(b)
        w, _ = mk(b, p2, c, c["geo"], be=c["be"])
        f, mn = w.createDensityMeasuredFunction(np.array(hs), np.array(ds), prm[1], prm[2])
        from AMAT.vehicle import Vehicle
        p3 = planet(b); p3.density_int = f
        todo = list(range(first, nE))
        todo = sorted(set(todo[-3:] + todo[:2] + todo[::max(1, len(todo) // 8)]))
        for k in todo:
            e = segs[k][1] - 1
            x = Vehicle("x", PRM[b][3], b1 * ratio, 0.0, PRM[b][4], 0.0, PRM[b][2], p3)
            x.setInitialState(*[H[q][e] for q in ("h_km", "theta_deg", "phi_deg", "v_kms", "psi_deg", "gamma_deg", "drange_km", "heatload")]); x.setSolverParams(1e-6)
            x.propogateEntry2(T, c["dt"], 0.0)
            X, V = ref.inertial(p.OMEGA, x.rc[-1], x.vc[-1], x.gammac[-1], x.thetac[-1], x.phic[-1], x.psic[-1])
            pred[k] = (ref.kepler(p.GM, X, V)["ra"] - p.RP) / 1e3

    def answers(k, hdot):
        a = pred.get(k)
        if a is None or abs(a) < 1.0 or any(abs(a - x) <= 0.02 * abs(x) for x in (tgt[1] - tgt[2], tgt[1] + tgt[2], tgt[1])) and abs(a - tgt[1]) > tgt[2] * 0.5:
            return None
        return a
    out = judge(R, b, p, A, v, cfg, c, prm, answers, "real", be=c["be"])
    R.sample = dict(case=c, cycles=out["n"], entry=out["nE"], apoapsis=float(v.terminal_apoapsis))
