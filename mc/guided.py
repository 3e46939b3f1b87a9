"""Oracle for recorded guided entries: cycle reconstruction, continuity, equations of motion, loads, hand-over and terminal results."""
import numpy as np
from . import ref, traj

KEYS = ["t_min", "h_km", "v_kms", "theta_deg", "phi_deg", "psi_deg", "gamma_deg", "drange_km", "acc_net_g", "dyn_pres_atm", "stag_pres_atm", "q_stag_total", "heatload"]
D = 180 / np.pi


def vis_dv(GM, r, other, new):
    """signed speed change at radius r when the opposite apsis goes from other to new"""
    s = lambda o: np.sqrt(max(0.0, 2 * GM * (1 / r - 1 / (r + o))))
    return s(new) - s(other)


def history(v, sfx):
    return {k: np.asarray(getattr(v, k + sfx), float) for k in KEYS}


def segments(t):
    """[start, end) index pairs: a guidance cycle begins where the time stamp repeats"""
    cut = [0] + [i + 1 for i in range(len(t) - 1) if t[i + 1] == t[i]] + [len(t)]
    return list(zip(cut[:-1], cut[1:]))


def stateY(p, H):
    return np.array([p.RP + H["h_km"] * 1e3, H["theta_deg"] / D, H["phi_deg"] / D, H["v_kms"] * 1e3, H["psi_deg"] / D, H["gamma_deg"] / D, H["drange_km"] * 1e3])


def flight(R, b, p, A, cfg, H, segs, bank_deg, ddc, ldc, RN, dt, steps, tol=1e-6, ctx="", dens=None):
    """bank_deg, ddc, ldc, steps: one value per segment"""
    t = H["t_min"] * 60
    n = len(t)
    if not R.ok(n > 2 and all(len(H[k]) == n for k in KEYS), "history-lengths", ctx):
        return
    want0 = [0.0, cfg["h0"], cfg["v0"], cfg["theta"], cfg["phi"], cfg["psi"], cfg["gamma"], cfg["drange"]]
    R.near([H[k][0] for k in KEYS[:8]], want0, "entry-state", rtol=1e-9, atol=1e-9, ctx=ctx)
    R.ok(abs(H["heatload"][0] - cfg["heat"]) <= 1e-9 * (1 + cfg["heat"]), "initial-heat-load", lambda: f"{ctx} {H['heatload'][0]} for {cfg['heat']}")
    d = np.diff(t)
    R.ok(np.all(d >= 0) and np.all(d <= dt * 1.0001 + 1e-9), "time-continuity", lambda: f"{ctx} steps {d.min()}..{d.max()} dt={dt}")
    Y = stateY(p, H)
    bank, dd, ld = np.zeros(n - 1), np.zeros(n - 1), np.zeros(n - 1)
    for k, (i, j) in enumerate(segs):
        bank[i:j - 1], dd[i:j - 1], ld[i:j - 1] = bank_deg[k] / D, ddc[k], ldc[k]
        if k:
            R.near(Y[:, i], Y[:, i - 1], "jump-between-cycles", rtol=1e-9, atol=1e-6, ctx=lambda: f"{ctx} cycle {k} t={t[i]}")
            R.ok(abs(H["heatload"][i] - H["heatload"][i - 1]) <= 1e-9 * (1 + abs(H["heatload"][i])), "heat-load-jump", lambda: f"{ctx} cycle {k}")
        if k < len(segs) - 1:
            hd = H["v_kms"][j - 1] * np.sin(H["gamma_deg"][j - 1] / D)
            cut = H["h_km"][j - 1] + 1.2 * hd * dt > p.h_skip / 1e3 or H["h_km"][j - 1] + 1.2 * hd * dt < p.h_trap / 1e3     # cycle ended by leaving the atmosphere / trapping
            cut = cut or H["gamma_deg"][j - 1] < -85.0     # near-vertical fall: the integrator stops by design
            R.ok((steps[k] - 1e-6 <= t[j - 1] - t[i] or cut) and t[j - 1] - t[i] <= steps[k] + dt + 1e-6, "cycle-duration", lambda: f"{ctx} cycle {k} lasts {t[j-1]-t[i]} for {steps[k]}")
    m = (d > 0) & (np.arange(n - 1) < traj.regular(Y[5]) - 1)
    sub = max(1, int(np.ceil(d.max() / 0.25)))
    Z = ref.flow(ref.Body(p), Y[:, :-1][:, m], d[m], A.dens if dens is None else dens, ld[m], dd[m], bank[m], sub)
    res = np.abs(Z - Y[:, 1:][:, m]) / traj.scale(p)
    lim = 600 * tol + 2e-6
    w = np.unravel_index(int(np.argmax(res)), res.shape)
    R.ok(np.all(res <= lim), "equations-of-motion", lambda: f"{ctx} residual {res[w]:.2e} in component {w[0]} at t={t[:-1][m][w[1]]:.2f} h={H['h_km'][:-1][m][w[1]]:.2f}")
    R.evals += res.shape[1]
    # loads (per sample with the segment's aerodynamics)
    rho = A.fd(Y[0] - p.RP) if dens is None else dens(Y[0] - p.RP)
    q = 0.5 * rho * Y[3]**2
    sd, sl = np.zeros(n), np.zeros(n)
    for k, (i, j) in enumerate(segs):
        sd[i:j], sl[i:j] = ddc[k], ldc[k]
    small = 1e-9
    R.near(H["dyn_pres_atm"], q / traj.ATMPA, "dynamic-pressure", rtol=1e-5, atol=small, ctx=ctx)
    R.near(H["acc_net_g"], q * np.hypot(sd, sl) / ref.G0, "deceleration", rtol=1e-5, atol=small, ctx=ctx)
    R.near(H["stag_pres_atm"], (A.fp(Y[0] - p.RP) + q) / traj.ATMPA, "stagnation-pressure", rtol=1e-5, atol=small, ctx=ctx)
    qs = traj.q_con(b, RN, rho, Y[3]) + traj.q_rad(b, RN, rho, Y[3])
    R.near(H["q_stag_total"], qs, "heating", rtol=1e-4, atol=1e-6 + 1e-6 * np.max(qs), ctx=ctx)
    hl = traj.trapz_load(H["q_stag_total"], t, cfg["heat"])
    R.near(H["heatload"], hl, "heat-load", rtol=1e-6, atol=1e-6, ctx=ctx)
    R.ok(np.all(np.diff(H["heatload"]) >= -1e-9), "heat-load-decreases", ctx)


def telemetry(R, v, p, A, H, segs, nE, ctx="", qref=None):
    """the recorded guidance telemetry is the state at the start of each cycle (entry 0 is a placeholder), its rates and the references steered to"""
    n = len(segs)
    Y = stateY(p, H)
    st = [i for i, _ in segs]
    hd = (Y[3] * np.sin(Y[5]))[st]
    q = 0.5 * A.dens(Y[0][st] - p.RP) * Y[3][st]**2
    t = H["t_min"][st] * 60
    got = np.asarray(v.hdot_array, float)
    if R.ok(len(got) == n and len(v.hddot_array) == n, "telemetry-length", lambda: f"{ctx} {len(got)} altitude rates, {len(v.hddot_array)} accelerations for {n} cycles"):
        R.near(got[1:], hd[1:], "altitude-rate-telemetry", rtol=1e-9, atol=1e-6, ctx=ctx)
        if n > 2:
            R.near(np.asarray(v.hddot_array, float)[2:], np.diff(hd[1:]) / np.diff(t[1:]), "altitude-acceleration-telemetry", rtol=1e-7, atol=1e-5, ctx=ctx)
    # the reference altitude rate is not used before the switch and is the last one flown before it afterwards
    R.near(v.hdotref_array, np.where(np.arange(n) < nE, 0.0, hd[nE - 1] if nE > 1 else 0.0), "altitude-rate-reference-telemetry", rtol=1e-9, atol=1e-6, ctx=ctx)
    for name, want in (("q_array", q), ("h_step_array", H["h_km"][st])) + (() if qref is None else (("qref_array", qref),)):
        g = np.asarray(getattr(v, name), float)
        if R.ok(len(g) == nE, "telemetry-length", lambda: f"{ctx} {len(g)} entries of {name} for {nE} cycles"):
            R.near(g[1:], want[1:nE], name + "-telemetry", rtol=1e-6, atol=1e-9, ctx=ctx)


def terminal(R, p, v, H, target, ctx=""):
    Y = stateY(p, H)[:, -1]
    X, V = ref.inertial(p.OMEGA, Y[0], Y[3], Y[5], Y[1], Y[2], Y[4])
    K = ref.kepler(p.GM, X, V)
    ra, rp = K["ra"], K["rp"]
    apo, peri = (ra - p.RP) / 1e3, (rp - p.RP) / 1e3
    sens = 1e-6 * abs(K["a"]) / 1e3 * (1 + abs(K["a"]) / K["r"])
    R.near(v.terminal_apoapsis, apo, "terminal-apoapsis", rtol=1e-6, atol=1e-3 + sens, ctx=ctx)
    R.near(v.terminal_periapsis, peri, "terminal-periapsis", rtol=1e-6, atol=1e-3 + sens, ctx=ctx)
    tp, ta = target[:2]
    R.near(v.apoapsis_perc_error, (v.terminal_apoapsis - ta) * 100.0 / ta, "apoapsis-error", rtol=1e-9, atol=1e-9, ctx=ctx)
    if K["E"] < 0:
        rtp, rta = p.RP + tp * 1e3, p.RP + ta * 1e3
        ra_, rp_ = p.RP + v.terminal_apoapsis * 1e3, p.RP + v.terminal_periapsis * 1e3
        if ra_ > 0 and rp_ > 0:
            R.near(v.periapsis_raise_DV, vis_dv(p.GM, ra_, rp_, rtp), "periapsis-raise-burn", rtol=1e-6, atol=1e-6, ctx=ctx)
        R.near(v.apoapsis_raise_DV, vis_dv(p.GM, rtp, ra_, rta), "apoapsis-raise-burn", rtol=1e-6, atol=1e-6, ctx=ctx)
    return K
