"""C25: visibility. Target directions over the whole sky (the site's zenith, nadir, horizon, the poles, the orbit's own axes) x latitudes x bodies through an in-memory ephemeris, landers against orbiters and
orbiters against planets with every position from independent mechanics."""
import contextlib
import numpy as np
from . import ref, c18, c21
from .c20 import Orb
PID, LEVEL = "C25", "exploration"
RULE = ("lander to planet: body x latitude (poles and equator included) x 40 target directions in the body frame (zenith and nadir of the site at several longitudes, exact horizon, poles) x number of samples; "
        "lander to orbiter: body x orbit x latitude x duration x samples; orbiter to planet: the same orbits x target directions (orbit axes, grazing the limb at 1 +- 1e-3 radii, in front of and behind the body), several results on one orbiter; "
        "distinct = (geometry, sample)")
ASSUME = ["the ephemeris file is absent in this sandbox: positions come from an in-memory ephemeris in place of astropy's reader", "samples within 1e-6 deg of the horizon or 1e-7 radii of the limb are not judged",
          "the body-inertial longitude of the lander is zero at the start, as documented"]
CHUNK = 1


def cases(tier):
    out = []
    for b in ref.BODIES:
        out.append(dict(kind="planet", body=b, tier=tier))
        for q in range(4):
            out.append(dict(kind="orbiter", body=b, orb=q, tier=tier)); out.append(dict(kind="occult", body=b, orb=q, tier=tier))
    return out


def other(b):
    return "EARTH" if b != "EARTH" else "MARS"


class Eph(dict):
    asked = ()


@contextlib.contextmanager
def ephemeris(pos):
    """pos: body name -> ICRF position, km"""
    import astropy.units as u
    from astropy.coordinates import CartesianRepresentation
    import AMAT.visibility as V

    def fake(body, t, *a, **k):
        body = str(body).upper()
        log.append((body, getattr(t, "scale", None), getattr(t, "iso", str(t))))
        x = pos[body]
        return CartesianRepresentation(*(np.asarray(x, float) * u.km)), CartesianRepresentation(*(np.zeros(3) * u.km / u.s))

    class S:
        @contextlib.contextmanager
        def set(self, f):
            files.append(f)
            yield
    log, files = [], []
    import astropy.coordinates as AC
    old = [(m, n, getattr(m, n)) for m in (V, AC) for n in ("get_body_barycentric_posvel", "get_body_barycentric", "solar_system_ephemeris") if hasattr(m, n)]
    for m, n, _ in old:
        setattr(m, n, S() if n == "solar_system_ephemeris" else (fake if n.endswith("posvel") else (lambda *a, **k: fake(*a, **k)[0])))
    try:
        yield log, files
    finally:
        for m, n, x in old:
            setattr(m, n, x)


DATE = "2036-03-28 06:30:00"


def lander(target, body, lat, n):
    from AMAT.visibility import LanderToPlanet
    return LanderToPlanet(target, body, lat, DATE, num_points=n, ephem_file="some/file.bsp")


def frame(b):
    k = ref.CONST[b]
    return ref.icrf_to_bi(np.radians(k[7]), np.radians(k[8]))


def sph(lat, lon):
    a, o = np.radians(lat), np.radians(lon)
    return np.array([np.cos(a) * np.cos(o), np.cos(a) * np.sin(o), np.sin(a)])


def angle_between(a, b):
    """robust at 0 and 180 degrees, in degrees"""
    a = a / np.linalg.norm(a, axis=-1, keepdims=True); b = b / np.linalg.norm(b, axis=-1, keepdims=True)
    return np.degrees(2 * np.arctan2(np.linalg.norm(a - b, axis=-1), np.linalg.norm(a + b, axis=-1)))


def judge(R, v, beta, key, ctx):
    bt, el = np.asarray(v.beta_array, float), np.asarray(v.elevation_array, float)
    ok = R.near(bt, beta, "zenith-angle" + key, atol=3e-6, ctx=ctx)
    ok &= R.near(el, np.maximum(0, 90 - beta), "elevation" + key, atol=3e-6, ctx=ctx)
    vis = np.asarray(v.visible_array)
    if not R.ok(vis.shape == beta.shape, "visible" + key, ctx):
        return
    sure = np.abs(90 - beta) > 1e-6
    R.ok(np.all((vis.astype(bool) == (beta < 90))[sure]), "visible" + key, lambda: f"{ctx} {vis} {beta}")
    R.ok(np.all(vis.astype(bool) == (el > 0)), "visible-iff-elevation" + key, lambda: f"{ctx}")


def freeze(v):
    return {k: (x, x.copy()) for k, x in vars(v).items() if isinstance(x, np.ndarray)}


class Kept:
    """earlier results stay what they were while the same orbiter serves later ones"""
    def __init__(self, every=5):
        self.all, self.i, self.every = [], 0, every

    def add(self, v, ctx):
        if self.i % self.every == 0:
            self.all.append((v, freeze(v), ctx))
        self.i += 1

    def judge(self, R):
        for v, snap, ctx in self.all:
            bad = [k for k, (x, y) in snap.items() if not isinstance(getattr(v, k, None), np.ndarray) or not np.array_equal(getattr(v, k), y, equal_nan=y.dtype.kind == "f") or not np.array_equal(x, y, equal_nan=y.dtype.kind == "f")]
            R.ok(not bad, "earlier-result", lambda: f"{ctx} arrays {bad} changed when later results were computed")


def run(c, R):
    return globals()["run_" + c["kind"]](c, R)


def directions(lat, full):
    out = []
    for lo in (0.0, 36.0, 130.0, 252.0):
        z = sph(lat, lo)
        e = np.array([-np.sin(np.radians(lo)), np.cos(np.radians(lo)), 0.0]); n = np.cross(z, e)
        out += [z, -z, e, n, (z + e), (z - n), (z + 20 * e), (-z + 20 * n), (z + 1e-3 * n), e - 1e-4 * z]
    out += [np.array([0, 0, 1.0]), np.array([0, 0, -1.0])]
    if full:
        out += [sph(a, o) for a in range(-80, 81, 20) for o in range(0, 360, 40)]
    return [x / np.linalg.norm(x) for x in out]


def run_planet(c, R):
    b = c["body"]; M = frame(b); OM = ref.CONST[b][1]; RP = ref.CONST[b][0]
    full = c["tier"] == "thorough"
    host = "SATURN" if b == "TITAN" else b
    for lat in (-90.0, -51.0, 0.0, 3.0, 23.5, 60.0, 89.9, 90.0):
        for j, d in enumerate(directions(lat, full)):
            dist = (7e7, 1.4e9, 4.5e9)[j % 3]
            base = np.array([1.1e8, -7e8, 3e7]) if j % 2 else np.zeros(3)
            tgt = "SUN" if j % 6 == 1 else other(b) if j % 4 else "NEPTUNE" if b != "NEPTUNE" else "VENUS"
            n = (13, 101, 2, 36, 361)[(j + int(lat)) % 5]
            with ephemeris({host: base, tgt: base + M.T @ d * dist}) as (log, files):
                v = lander(tgt, b, lat, n); R.step()
            ctx = f"{b} latitude {lat} target {tgt} direction {np.round(d, 5).tolist()} {n} points"
            if j == 0:
                R.ok(sorted(set(x[0] for x in log)) == sorted({host, tgt}), "bodies-asked", lambda: f"{ctx} {log}")
                R.ok(all(x[1] == "tdb" and x[2].startswith("2036-03-28 06:30:00") for x in log), "epoch", lambda: f"{ctx} {log}")
                R.ok(files and all(f == "some/file.bsp" for f in files), "ephemeris-file", lambda: f"{ctx} {files}")
            want = M @ (M.T @ d * dist)
            rt = 1e-12 + 1e-15 * np.linalg.norm(base) / dist * 10
            R.near(v.range, dist * 1e3, "range", rtol=rt, ctx=ctx)
            R.near(v.obs_tar_pos_vec_bi_unit, d, "direction", atol=1e-12 + 10 * rt, ctx=ctx)
            T = 2 * np.pi / abs(OM)
            ts = np.linspace(0, T, n)
            R.near(v.t_array, ts, "times", rtol=1e-12, ctx=ctx)
            lon = np.degrees(OM * ts)
            dl = (np.asarray(v.longitude_array, float) - lon + 180) % 360 - 180
            R.near(dl, np.zeros(n), "longitude", atol=1e-7, ctx=ctx)
            z = np.array([sph(lat, x) for x in lon])
            judge(R, v, angle_between(z, d), "", ctx)
            R.state(b, lat, j); R.outcome(b, lat, round(float(np.max(v.elevation_array)), 4))
            if len(R.problems) >= 30:
                return
    R.sample = dict(case=c, last=ctx)


def orbit(c):
    """a propulsive orbiter and its independent twin"""
    from AMAT.approach import Approach
    from AMAT.orbiter import PropulsiveOrbiter
    b = c["body"]; k = ref.CONST[b]
    C = dict(RP=k[0], OMEGA=k[1], GM=k[2], a0=np.radians(k[7]), d0=np.radians(k[8]))
    d, vi, m, psi, q = [((-0.18, 0.73, 0.66), 7.0, 1.3, 4.7, 3.2), ((1, 0.4, 0.1), 3.0, 1.05, 0.4, 1.0), ((0.2, -0.3, 0.9), 10.0, 2.0, 2.2, 12.0), ((-0.5, -0.6, 0.4), 5.0, 1.004, 5.3, 1.03)][c["orb"]]
    d = np.array(d, float); d /= np.linalg.norm(d)
    o = c18.oracle(C, d, vi * 1e3, m * C["RP"], psi)
    O = PropulsiveOrbiter(Approach(b, d * vi, m * C["RP"], psi), (q * m - 1) * C["RP"] / 1e3)
    w = Orb.from_apses(C["GM"], m * C["RP"], q * m * C["RP"], o["P"], o["H"])
    w.a, w.e, w.P = (1 + q) * m * C["RP"] / 2, (q - 1) / (q + 1), o["P"]; w.Q = np.cross(o["H"], o["P"])
    return O, w, C


def kepler_positions(w, ts):
    M = np.sqrt(w.GM / w.a**3) * ts
    E = c21.solve_kepler(M, w.e)
    return w.a * ((np.cos(E) - w.e)[:, None] * w.P + np.sqrt(1 - w.e**2) * np.sin(E)[:, None] * w.Q)


def run_orbiter(c, R):
    from AMAT.visibility import LanderToOrbiter
    b = c["body"]
    O, w, C = orbit(c)
    T = 2 * np.pi * np.sqrt(w.a**3 / w.GM)
    kept = Kept()
    for lat in (-90.0, -35.0, 0.0, 3.0, 58.0, 90.0):
        for x, n in ((0.5, 7), (1.0, 40), (3.3, 61), (12.0, 400), (1.7, 2400 if lat in (-35.0, 58.0) else 24), (2 * np.pi / abs(C["OMEGA"]) / T, 50)) + (((30.0, 400),) if c["tier"] == "thorough" else ()):
            t = x * T
            v = LanderToOrbiter(b, lat, O, t, num_points=n); R.step()
            ctx = f"{b} orbit {c['orb']} latitude {lat} {x} periods {n} points"
            ts = np.linspace(0, t, n)
            R.near(v.t_array, ts, "times", rtol=1e-12, ctx=ctx)
            lon = np.degrees(C["OMEGA"] * ts)
            R.near(v.longitude_rate, np.degrees(C["OMEGA"]), "longitude-rate", rtol=1e-9, ctx=ctx)
            R.near((np.asarray(v.longitude_array, float) - lon + 180) % 360 - 180, np.zeros(n), "longitude-orbiter", atol=1e-7 + 1e-12 * np.max(np.abs(lon)), ctx=ctx)
            z = np.array([sph(lat, y) for y in lon]); L = z * C["RP"]
            X = kepler_positions(w, ts)
            g = lambda p: np.array([getattr(v, f"{p}_pos_{a}_bi_arr") for a in "xyz"]).T
            R.near(g("lander"), L, "lander-position", atol=1e-7 * C["RP"], ctx=ctx)
            R.near(g("orbiter"), X, "orbiter-position", atol=3e-6 * w.a, ctx=ctx)
            D = X - L
            R.near(v.range_array, np.linalg.norm(D, axis=1), "range-orbiter", atol=1e-5 * w.a, ctx=ctx)
            # judge angles on the library's own orbiter positions: they agree with the oracle's to the tolerance above
            D = g("orbiter") - L
            judge(R, v, angle_between(z, D), "-orbiter", ctx)
            for i in range(n):
                R.state(b, c["orb"], lat, x, i)
            R.outcome(b, c["orb"], lat, round(float(np.max(v.elevation_array)), 3), int(np.sum(v.visible_array)))
            kept.add(v, ctx)
    kept.judge(R)
    R.sample = dict(case=c, last=ctx)


def run_occult(c, R):
    from AMAT.visibility import OrbiterToPlanet
    b = c["body"]; M = frame(b)
    O, w, C = orbit(c)
    T = 2 * np.pi * np.sqrt(w.a**3 / w.GM)
    host = "SATURN" if b == "TITAN" else b
    kept = Kept(7)
    dirs = [w.P, -w.P, w.Q, -w.Q, w.Hu, -w.Hu, np.array([1.0, 0, 0]), np.array([0, 0, -1.0])]
    X0 = kepler_positions(w, np.array([0.31 * T]))[0]; r0 = np.linalg.norm(X0); u0 = X0 / r0; p0 = np.cross(w.Hu, u0)
    for s in (1 - 1e-3, 1 + 1e-3):                     # lines of sight that graze the limb from one particular sample
        for perp in (p0, -p0, w.Hu, -w.Hu):
            a = np.arcsin(min(1.0, s * C["RP"] / r0))
            dirs += [-np.cos(a) * u0 + np.sin(a) * perp, np.cos(a) * u0 + np.sin(a) * perp]
    for j, d in enumerate(dirs):
        d = d / np.linalg.norm(d)
        for n, x in ((101, 0.31 * 100 / 100), (120, 1.0)) + (((2300, 1.4),) if j in (1, 2, 10) else ()) + (((400, 3.0),) if c["tier"] == "thorough" else ()):
            t = x * T
            dist = (7e7, 4.5e9)[j % 2]; base = np.array([3e8, -7e8, 1e8]) if j % 3 else np.zeros(3)
            tgt = other(b) if j % 3 != 1 else "SUN"
            with ephemeris({host: base, tgt: base + M.T @ d * dist}) as (log, files):
                v = OrbiterToPlanet(tgt, b, O, DATE, t, num_points=n, ephem_file="f.bsp"); R.step()
            ctx = f"{b} orbit {c['orb']} direction {j} {np.round(d, 4).tolist()} {x} periods {n} points"
            if j == 0:
                R.ok(sorted(set(y[0] for y in log)) == sorted({host, tgt}), "bodies-asked", lambda: f"{ctx} {log}")
                R.ok(all(y[1] == "tdb" and y[2].startswith("2036-03-28 06:30:00") for y in log), "epoch", lambda: f"{ctx} {log}")
            ts = np.linspace(0, t, n)
            R.near(v.t_array, ts, "times", rtol=1e-12, ctx=ctx)
            R.near(v.range, dist * 1e3, "range", rtol=1e-11, ctx=ctx)
            R.near(v.obs_tar_pos_vec_bi_unit, d, "direction", atol=1e-10, ctx=ctx)
            G = np.array([v.orbiter_pos_x_bi_arr, v.orbiter_pos_y_bi_arr, v.orbiter_pos_z_bi_arr]).T * C["RP"]
            X = kepler_positions(w, ts)
            R.near(G, X, "orbiter-position-occult", atol=3e-6 * w.a, ctx=ctx)
            # the ray X + s*d, s>0, against the sphere of radius RP
            sd = X @ d
            miss = np.linalg.norm(X - sd[:, None] * d, axis=1)
            blocked = (miss < C["RP"]) & (sd < 0)
            sure = (np.abs(miss - C["RP"]) > 2e-5 * w.a)
            vis = np.asarray(v.visible_array)
            if R.ok(vis.shape == (n,), "visible-occult", ctx):
                bad = (vis.astype(bool) == blocked) & sure
                R.ok(not bad.any(), "visible-occult", lambda: f"{ctx} sample {int(np.argmax(bad))}: visible {bool(vis[np.argmax(bad)])}, line of sight passes {miss[np.argmax(bad)] / C['RP']} radii from the centre, target ahead/behind {sd[np.argmax(bad)]}")
            for i in range(n):
                R.state(b, c["orb"], j, n, i)
            R.outcome(b, c["orb"], j, int(blocked.sum()))
            kept.add(v, ctx)
            if j == 4:
                from AMAT.visibility import LanderToOrbiter
                kept.i = 0; kept.add(LanderToOrbiter(b, -20.0, O, 0.6 * T, num_points=33), f"{b} orbit {c['orb']} lander at -20 deg, 0.6 periods 33 points")
    kept.judge(R)
    R.sample = dict(case=c, last=ctx)
