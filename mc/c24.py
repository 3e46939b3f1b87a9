"""C24: transmission schedules and data volume. Every visibility history over small sample grids crossed with every set (and order) of transmission windows whose ends lie on, between, before or after the
samples; all sequences of data-volume computations on one link."""
import itertools
import numpy as np
from . import ref
PID, LEVEL = "C24", "model_checking"
RULE = ("grids of n samples; windows with both ends in {before, on each sample, between samples, after} (empty, point, inverted ones too): every ordered list of up to 2 windows (3 in the thorough tier), as arrays, "
        "tuples or lists, against every one of the 2^n visibility histories, several rates and non-uniform sample times; every sequence of 3 computations on one link; the library's own lander and relay visibilities; long histories (up to 1,600 samples) with up to eight windows in rotated order; distinct = (schedule, history) pairs")
ASSUME = ["the schedule has as many samples as the visibility history and describes the same times"]
CHUNK = 1


def cases(tier):
    out = []
    for n in (1, 2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        out.append(dict(kind="sched", n=n, k=1, tier=tier)); out.append(dict(kind="sched", n=n, k=2, tier=tier))
        if n <= (4 if tier == "thorough" else 2):
            out.append(dict(kind="sched", n=n, k=3, tier=tier))
    for n in (2, 3, 4, 5, 6) + ((7, 8) if tier == "thorough" else ()):
        out.append(dict(kind="vol", n=n, tier=tier))
    for n in (11, 101, 499, 500, 1001, 1600) + ((10001,) if tier == "thorough" else ()):
        out.append(dict(kind="long", n=n, tier=tier))
    out.append(dict(kind="seq", tier=tier))
    for b in ref.BODIES:
        out.append(dict(kind="real", body=b, tier=tier))
    return out


def run(c, R):
    return globals()["run_" + c["kind"]](c, R)


def mk_link(rate=14.0):
    from AMAT.telecom import Link
    return Link(8.4, 20.0, 40.0, 1e9, 0.5, rate, 0.3, Gt_dBi=40.0, Gr_dBi=60.0)


def windows(n, T):
    h = T / max(n - 1, 1)
    ends = [-h] + [h * q / 2 for q in range(0, 2 * n)] + [T * 10]
    ts = np.linspace(0, T, n)
    ends = sorted(set(ends) | set(ts.tolist()))
    # one representative per distinct position relative to the samples, exact sample times kept
    ends = [e for e in ends if not any(abs(e - t) < 1e-9 * max(T, 1) and e != t for t in ts)]
    return [(a, b) for a in ends for b in ends], ts


def inside(ts, ws):
    return [any(a <= t <= b for a, b in ws) for t in ts]


def run_sched(c, R):
    from AMAT.telecom import Schedule
    n = c["n"]
    for T in (7.0, 86400.0 * 16):
        W, ts = windows(n, T)
        pool = [list(w) for w in itertools.product(W, repeat=c["k"])] if c["k"] < 3 else [list(w) for w in itertools.combinations_with_replacement(W[:: 2 if n > 2 else 1], 3)]
        if c["k"] == 1:
            pool.append([])
        if c["k"] == 2 and n >= 4 and c["tier"] == "quick":
            keep = [w for w in W if w[0] <= w[1]]       # inverted windows are covered by the smaller grids
            pool = [list(w) for w in itertools.product(keep, keep)]
        for j, ws in enumerate(pool):
            form = j % 3
            arg = [np.array(w) if form == 0 else (tuple(w) if form == 1 else list(w)) for w in ws]
            S = Schedule(T, n, arg); R.step()
            want = inside(ts, ws)
            R.near(S.t_array, ts, "times", rtol=1e-12, ctx=T)
            got = np.asarray(S.transmit_array)
            R.ok(got.shape == (n,) and [bool(x) for x in got] == want, "transmit", lambda: f"grid {ts.tolist()} windows {ws}: {got} instead of {want}")
            R.state(n, T, tuple(ws)); R.outcome(n, tuple(want))
            if len(R.problems) >= 20:
                return
    R.sample = dict(case=c, last=ws)


def volume(rate, t, f):
    """trapezoids by hand"""
    out = [0.0]
    for i in range(1, len(t)):
        out.append(out[-1] + rate * (int(f[i]) + int(f[i - 1])) / 2 * (t[i] - t[i - 1]))
    return out


class Vis:
    pass


class Sch:
    pass


def run_vol(c, R):
    from AMAT.telecom import Schedule
    n = c["n"]
    grids = [np.linspace(0, 86400.0, n), np.cumsum(np.arange(n) % 3 + 1.0) - 1.0, np.linspace(500.0, 900.0, n)]
    for rate in (14.0, 0.2):
        link = mk_link(rate)
        for gi, t in enumerate(grids):
            for vis in itertools.product((False, True), repeat=n):
                for tr in itertools.product((False, True), repeat=n):
                    if n > 5 and sum(a != b for a, b in zip(tr, tr[1:])) > 2 and c["tier"] == "quick":
                        continue                        # at most three runs on the longer grids
                    v, s = Vis(), Sch()
                    v.t_array, v.visible_array = t, np.array(vis)
                    s.t_array, s.transmit_array = t, np.array(tr)
                    link.compute_data_volume(v, s); R.step()
                    w = volume(rate * 1e3, t, [a and b for a, b in zip(vis, tr)])
                    g = np.asarray(link.data_volume_array, float)
                    R.near(g, w, "volume", rtol=1e-12, atol=1e-9, ctx=lambda: f"rate {rate} t {t.tolist()} visible {vis} transmit {tr}")
                    R.ok(len(g) and g[0] == 0.0 and np.all(np.diff(g) >= 0), "monotone", lambda: f"{g}")
                    R.state(n, rate, gi, vis, tr); R.outcome(n, rate, gi, round(w[-1], 3))
                    if len(R.problems) >= 20:
                        return
            # real schedule object in place of the record
            S = Schedule(t[-1], n, [(t[0], t[-1] / 2)])
            v = Vis(); v.t_array, v.visible_array = np.linspace(0, t[-1], n), np.ones(n, bool)
            link.compute_data_volume(v, S)
            R.near(link.data_volume_array, volume(rate * 1e3, v.t_array, [t[0] <= x <= t[-1] / 2 for x in v.t_array]), "volume", rtol=1e-12, atol=1e-9)
            R.ok(np.all(v.visible_array == True), "inputs-kept")
    R.sample = dict(case=c, volume=w[-1])


def run_long(c, R):
    """histories as long as the library makes them, with up to eight windows in every rotation of their order"""
    from AMAT.telecom import Schedule
    n = c["n"]
    T = 86400.0 * 16
    ts = np.linspace(0, T, n); h = ts[1]
    base = [(0.0, 3 * h), (T - 2.5 * h, 2 * T), (T / 3, T / 3 + 2.2 * h), (T / 2, T / 2), (0.7 * T, 0.9 * T), (0.8 * T, 0.82 * T), (0.95 * T, 0.94 * T), (-5.0, -1.0)]
    # as many windows as samples, and windows that stop just short of a sample or start just after it
    for q in (1e-4, 0.3, 1.0):
        for gap in (2, 3):
            ws = [(ts[i] + (q if i % 4 else -q), ts[i] + h - (q if i % 3 else -q)) for i in range(0, n, gap)]
            for arg in (ws, ws[::-1]):
                S = Schedule(T, n, arg); R.step()
                lo, hi = np.array(ws).T
                want = np.array([bool(np.any((lo <= t) & (t <= hi))) for t in ts])
                got = np.asarray(S.transmit_array).astype(bool)
                R.ok(got.shape == (n,) and np.array_equal(got, want), "transmit", lambda: f"{n} samples, {len(ws)} windows {q} s off the samples: {np.flatnonzero(got != want)[:5]} wrong")
    for k in (0, 1, 2, 3, 8):
        for rot in range(max(k, 1)):
            ws = [base[(rot + j) % 8] for j in range(k)]
            S = Schedule(T, n, ws); R.step()
            want = [any(a <= t <= b for a, b in ws) for t in ts]
            got = np.asarray(S.transmit_array)
            R.ok(got.shape == (n,) and [bool(x) for x in got] == want, "transmit", lambda: f"{n} samples, windows {ws}: {np.flatnonzero(got != np.array(want))[:5]} wrong")
            for m, rate in ((2, 14.0), (7, 0.2), (n // 2 + 1, 250.0), (n + 1, 14.0)):
                v = Vis(); v.t_array, v.visible_array = ts, (np.arange(n) // m) % 2 == rot % 2
                link = mk_link(rate)
                link.compute_data_volume(v, S); R.step()
                R.near(np.asarray(link.data_volume_array, float), volume(rate * 1e3, ts, v.visible_array & np.array(want)), "volume", rtol=1e-9, atol=1e-6, ctx=lambda: f"{n} samples, windows {ws}, {m}")
                R.state(n, tuple(ws), m); R.outcome(n, round(float(link.data_volume_array[-1]), 1))
    R.sample = dict(case=c)


def run_seq(c, R):
    """a link computes the volume of what it is given, whatever it computed before"""
    from AMAT.telecom import Schedule
    items = []
    for n, vis, win in ((4, "1111", [(0, 9.0)]), (4, "0110", [(0, 3.0), (6.0, 9.0)]), (3, "000", [(0, 9.0)]), (5, "10101", []), (4, "1011", [(3.0, 3.0)])):
        v = Vis(); v.t_array = np.linspace(0, 9.0, n); v.visible_array = np.array([x == "1" for x in vis])
        items.append((v, Schedule(9.0, n, win), win))
    for depth in (1, 2, 3):
        for seq in itertools.product(range(len(items)), repeat=depth):
            link, other = mk_link(), mk_link(3.0)
            kept = []
            for i in seq:
                v, s, win = items[i]
                for k, rate in ((link, 14e3), (other, 3e3)):
                    e0 = float(k.EB_N0)
                    k.compute_data_volume(v, s); R.step()
                    w = volume(rate, v.t_array, [a and b for a, b in zip(v.visible_array, inside(v.t_array, win))])
                    R.near(k.data_volume_array, w, "volume-after-others", rtol=1e-12, atol=1e-9, ctx=lambda: f"{seq}")
                    R.near(k.t_array, v.t_array, "times", rtol=1e-12)
                    R.ok(k.EB_N0 == e0, "budget-kept")
                    kept.append((np.asarray(k.data_volume_array), w))
            for g, w in kept:                           # a curve read earlier stays what it was
                R.near(g, w, "earlier-volume", rtol=1e-12, atol=1e-9, ctx=lambda: f"{seq}")
            for v, s, win in items:
                R.ok([bool(x) for x in s.transmit_array] == inside(np.linspace(0, 9.0, len(v.t_array)), win), "inputs-kept", lambda: f"{seq}")
            R.state(seq); R.outcome(seq)
    R.sample = dict(case=c)


def run_real(c, R):
    """the library's own visibility objects, one rotation of each body"""
    from . import c25
    from AMAT.telecom import Schedule
    b = c["body"]
    for lat in (-75.0, 0.0, 40.0):
        for d in ((1, 0, 0), (0.3, -0.8, 0.5), (0, 0, 1)):
            with c25.ephemeris({("SATURN" if b == "TITAN" else b): np.zeros(3), c25.other(b): 1e8 * np.array(d, float)}):
                v = c25.lander(c25.other(b), b, lat, 31)
            T = 2 * np.pi / abs(ref.CONST[b][1])
            for win in ([(0, T)], [(0.2 * T, 0.4 * T)], [(0.5 * T, 9 * T), (0, 0.1 * T)], []):
                S = Schedule(T, 31, win)
                k = mk_link()
                k.compute_data_volume(v, S); R.step()
                ts = np.linspace(0, T, 31)
                f = [bool(x) and y for x, y in zip(v.visible_array, inside(ts, win))]
                if any(abs(t - e) < 1e-9 * T for t in ts for w in win for e in w) and any(a != b_ for a, b_ in zip(np.asarray(S.transmit_array, bool), inside(ts, win))):
                    continue                             # window end within round-off of a sample
                g = np.asarray(k.data_volume_array, float)
                R.near(g, volume(14e3, ts, f), "volume-over-a-rotation", rtol=1e-9, atol=1e-6, ctx=f"{b} latitude {lat} direction {d} windows {win}")
                R.ok(np.all(np.diff(g) >= 0), "monotone", f"{b} latitude {lat} direction {d}: data volume decreases, last {g[-1]}")
                R.state(b, lat, d, tuple(win)); R.outcome(b, round(float(g[-1]), 1))
    # relays: a lander to an orbiter, and the orbiter to a planet, on one orbiter
    from AMAT.visibility import LanderToOrbiter, OrbiterToPlanet
    for q in (0, 1, 3):
        O, w, C = c25.orbit(dict(body=b, orb=q))
        P = 2 * np.pi * np.sqrt(w.a**3 / w.GM)
        for x, n in ((0.7, 9), (2.6, 50)):
            T = x * P
            seen = [LanderToOrbiter(b, 12.0, O, T, num_points=n)]
            with c25.ephemeris({("SATURN" if b == "TITAN" else b): np.zeros(3), c25.other(b): c25.frame(b).T @ (-w.P + 0.2 * w.Q) * 1e8}):
                seen.append(OrbiterToPlanet(c25.other(b), b, O, "2036-03-28 06:30:00", T, num_points=n, ephem_file="f.bsp"))
            for win in ([(-1.0, 2 * T)], [(0.21 * T, 0.43 * T), (0.33 * T, 0.777 * T)], [(0.9 * T, 0.1 * T)]):
                S = Schedule(T, n, win)
                links = [mk_link(), mk_link(0.7)]
                for k, v, rate in zip(links, seen, (14e3, 700.0)):
                    k.compute_data_volume(v, S); R.step()
                ts = np.linspace(0, T, n)
                for k, v, rate in zip(links, seen, (14e3, 700.0)):
                    f = [bool(a) and y for a, y in zip(v.visible_array, inside(ts, win))]
                    g = np.asarray(k.data_volume_array, float)
                    R.near(g, volume(rate, ts, f), "volume-over-an-orbit", rtol=1e-9, atol=1e-6, ctx=f"{b} orbit {q} {x} periods, {n} samples, windows {win}")
                    R.outcome(b, q, round(float(g[-1]), 1))
                R.state(b, q, x, tuple(win))
    R.sample = dict(case=c)
