"""C07: heating correlations on the complete product of body x nose radius x altitude x speed, including every speed-band edge."""
import itertools
import numpy as np
from . import ref, traj
PID, LEVEL = "C07", "exploration"
RULE = ("full product body x nose radius x altitude (table nodes, between nodes, above the table) x speed (fine grid, every correlation band edge and its neighbours), for every "
        "array length 1..3 ordering; and multi-radius batches of every length 0..4 (with repeats and the vehicle's own radius); distinct = heating values")
ASSUME = ["published correlation coefficients as documented in the source", "nose radii positive, altitudes at or above the lowest table altitude"]
CHUNK = 1
RNS = [0.01, 0.05, 0.3, 1.0, 2.7, 6.0]


def cases(tier):
    return [dict(body=b, rn=rn, tier=tier) for b in ref.BODIES for rn in RNS] + [dict(body=b, multi=True) for b in ref.BODIES]


def speeds(tier):
    s = list(np.linspace(100.0, 60000.0, 120 if tier == "quick" else 1200))
    for e in list(traj.EARTH_F[0]) + [8000.0, 10000.0]:
        s += [np.nextafter(e, 0), e, np.nextafter(e, 1e9), e - 1.0, e + 1.0, e + 499.0]
    return np.array(sorted(s))


def run(c, R):
    b = c["body"]
    p = ref.mk_planet(b); A = ref.Atmos(b)
    if c.get("multi"):
        return multi(c, R, b, p, A)
    rn = c["rn"]
    v = ref.mk_vehicle(p, RN=rn)
    top = A.h[-1]
    hs = np.concatenate([A.h[1::max(1, len(A.h) // 12)], np.linspace(A.h[0] + 1, top - 1, 9), [top + 5000.0]])
    vs = speeds(c["tier"])
    for h in hs:
        rho = A.fd(np.full(len(vs), h))
        if rho[0] < 0:
            continue
        r = np.full(len(vs), h + p.RP)
        rk, vk = r.copy(), vs.copy()
        con, rad, tot = v.qStagConvective(r, vs), v.qStagRadiative(r, vs), v.qStagTotal(r, vs); R.step(3)
        wc, wr = traj.q_con(b, rn, rho, vs), traj.q_rad(b, rn, rho, vs)
        # table density at a node carries the round-off of r - RP
        R.near(con, wc, "convective", rtol=2e-6, atol=1e-300, ctx=f"h={h} RN={rn}")
        R.near(rad, wr, "radiative", rtol=5e-6, atol=1e-300, ctx=f"h={h} RN={rn}")
        R.near(tot, wc + wr, "total", rtol=5e-6, atol=1e-300, ctx=f"h={h} RN={rn}")
        R.ok(np.all(con >= 0) and np.all(rad >= 0), "negative")
        R.ok(np.array_equal(r, rk) and np.array_equal(vs, vk) and v.RN == rn, "inputs-changed")
        R.evals += len(vs)
        for i in range(0, len(vs), 7):
            R.outcome(b, rn, float(h), i)
    # every ordered pair of speed bands (a history element must not influence another), and whole histories in both directions
    sp3 = np.array([500.0, 3000.0, 6500.0, 7900.0, 8100.0, 9000.0, 9600.0, 9990.0, 10500.0, 11400.0, 12600.0, 14000.0, 15500.0, 17000.0, 24000.0, 33000.0, 50000.0])
    for hp in (hs[1], hs[5]):
        for i, j in itertools.product(range(len(sp3)), repeat=2):
            sp = np.array([sp3[i], sp3[j]]); h = np.array([hp, 0.5 * (hp + hs[2])])
            rho = A.fd(h)
            R.near(v.qStagTotal(h + p.RP, sp), traj.q_con(b, rn, rho, sp) + traj.q_rad(b, rn, rho, sp), "elementwise-pair", rtol=5e-6, atol=1e-300); R.step()
    for seq in (sp3, sp3[::-1], np.concatenate([sp3[::-1], sp3]), np.concatenate([sp3[::2], sp3[::-2]])):
        h = np.linspace(hs[1], hs[-2], len(seq)); rho = A.fd(h)
        if np.all(rho >= 0):
            R.near(v.qStagTotal(h + p.RP, seq), traj.q_con(b, rn, rho, seq) + traj.q_rad(b, rn, rho, seq), "elementwise-history", rtol=5e-6, atol=1e-300); R.step()
    # element k depends on element k only
    pick_h, pick_v = [hs[1], hs[-2], hs[5]], [vs[3], vs[60], vs[90]]
    for n in (1, 2, 3):
        for idx in itertools.product(range(3), repeat=n):
            h = np.array([pick_h[i] for i in idx]); sp = np.array([pick_v[i] for i in idx])
            rho = A.fd(h)
            R.near(v.qStagTotal(h + p.RP, sp), traj.q_con(b, rn, rho, sp) + traj.q_rad(b, rn, rho, sp), "elementwise", rtol=5e-6, atol=1e-300); R.step()
    R.state(b, rn)
    R.sample = dict(body=b, RN=rn, h=float(hs[5]), v=float(vs[60]), q=float(traj.q_con(b, rn, A.fd(hs[5]), vs[60])))


def multi(c, R, b, p, A):
    own = 1.1
    v = ref.mk_vehicle(p, RN=own)
    v.propogateEntry(600.0, 1.0, 0.0)
    T, Rr, Sp = v.tc, v.rc, v.vc
    N = len(T)
    # the whole flight, then uneven histories: thinned out, and with repeated time stamps as guided flights record them
    uneven = np.unique(np.concatenate([np.arange(0, N, 7), np.arange(N // 3, N // 2), [N - 1]]))
    repeat = np.sort(np.concatenate([np.arange(0, N, 3), np.arange(0, N, 12)]))
    for hist, idx in (("full", np.arange(N)), ("uneven", uneven), ("repeat", repeat), ("one", np.array([N // 2])), ("two", np.array([N // 2, N // 2 + 3])), ("three", np.array([N // 3, N // 2, N - 1]))):
        judge(R, b, p, A, v, own, T[idx], Rr[idx], Sp[idx], hist)
    R.sample = dict(body=b, radii=[0.2, own, 0.75, 3.0])


def judge(R, b, p, A, v, own, t, r, sp, hist):
    rho = A.fd(r - p.RP)
    keep = (t.copy(), r.copy(), sp.copy())
    radii = [0.2, own, 0.75, 3.0]
    for n in range(0, 5 if hist == "full" else 3):
        for combo in itertools.product(radii, repeat=n):
            if n == 4 and combo[0] > combo[1]:
                continue
            arr = np.array(combo)
            qm, hl = v.computeHeatingForMultipleRN(t, r, sp, arr); R.step()
            R.ok(v.RN == own, "own-nose-radius-changed", lambda: f"{combo}: {v.RN}")
            R.ok(np.array_equal(arr, np.array(combo)), "radii-mutated")
            wq = [np.max(traj.q_con(b, x, rho, sp) + traj.q_rad(b, x, rho, sp)) for x in combo]
            wl = [traj.trapz_load(traj.q_con(b, x, rho, sp) + traj.q_rad(b, x, rho, sp), t, 0.0)[-1] for x in combo]
            if R.ok(len(qm) == n and len(hl) == n, "multi-length") and n:
                R.near(qm, wq, "multi-peak", rtol=5e-6); R.near(hl, wl, "multi-heatload", rtol=5e-6)
            R.outcome(b, hist, combo)
    for combo in ([1, 3], (2,), [0.5, 2], range(1, 4), np.array([2, 1, 7])):      # radii written as integers, lists, tuples or ranges
        qm, hl = v.computeHeatingForMultipleRN(t, r, sp, combo); R.step()
        if R.ok(len(qm) == len(hl) == len(combo), "multi-length"):
            R.near(qm, [np.max(traj.q_con(b, x, rho, sp) + traj.q_rad(b, x, rho, sp)) for x in combo], "multi-peak", rtol=5e-6, ctx=f"{combo}")
            R.near(hl, [traj.trapz_load(traj.q_con(b, x, rho, sp) + traj.q_rad(b, x, rho, sp), t, 0.0)[-1] for x in combo], "multi-heatload", rtol=5e-6, ctx=f"{combo}")
        R.ok(v.RN == own, "own-nose-radius-changed", lambda: f"{combo}: {v.RN}")
    R.ok(all(np.array_equal(x, y) for x, y in zip(keep, (t, r, sp))), "trajectory-mutated")
    R.state(b, "multi", hist)
