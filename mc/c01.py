"""C01 atmosphere look-ups, conversions and constants: every body x interpolation kind x load history x altitude grid."""
import os, itertools
import numpy as np
from . import ref
PID, LEVEL = "C01", "exploration"
RULE = ("full product of body x interpolation kind x column/unit layout x load history; for each, every table node, every midpoint, "
        "0, +-1 m, every threshold +-1 m and points outside the table; a case is distinct by its (body, layout, density vector)")
ASSUME = ["scipy.interpolate.interp1d on the raw table is the trusted interpolation oracle"]
CHUNK = 1


def cases(tier):
    out = []
    for b in ref.BODIES:
        for kind in (None, "linear", "quadratic", "cubic"):
            for hist in ("fresh", "reloaded", "variant"):
                for layout in ("shipped", "perm-m", "perm-km", "perm-km-desc"):
                    out.append(dict(body=b, kind=kind, hist=hist, layout=layout))
    out.append(dict(body="BAD", kind=None, hist="fresh", layout="shipped"))
    return out


def run(c, R):
    from AMAT.planet import Planet
    if c["body"] == "BAD":
        for bad in ("PLUTO", "venus", "", "Earth", "SUN"):
            R.step()
            try:
                Planet(bad); R.fail("bad-body", f"Planet({bad!r}) accepted")
            except ValueError:
                pass
        R.outcome("bad"); R.state("bad")
        return
    b = c["body"]; C = ref.CONST[b]
    p = Planet(b)
    names = ["RP", "OMEGA", "GM", "rho0", "CPCV", "J2", "J3", "a0", "d0", "h_thres", "h_skip", "h_trap", "h_low"]
    scale = [1] * 7 + [ref.D2R] * 2 + [1e3] * 4
    for n, cv, s in zip(names, C, scale):
        R.near(getattr(p, n), cv * s, f"constant:{b}.{n}", rtol=1e-6, atol=1e-12)
    R.near(p.EARTHG, ref.G0, "constant:g0", rtol=1e-9)
    R.near(p.Vref, np.sqrt(C[2] / C[0]), "scale:Vref", rtol=1e-6)
    R.near(p.tau, C[0] / np.sqrt(C[2] / C[0]), "scale:tau", rtol=1e-6)
    R.near(p.OMEGAbar, C[1] * C[0] / np.sqrt(C[2] / C[0]), "scale:OMEGAbar", rtol=1e-6)

    f, hc, tc, pc, dc, km = ref.ATM[b]
    T = np.loadtxt(f)
    cols = (hc, tc, pc, dc)
    if c["layout"] != "shipped":
        H = T[:, hc] * (1e3 if km else 1.0)
        km = "km" in c["layout"]
        M = np.column_stack([T[:, dc], np.full(len(H), 7.0), T[:, pc], H / (1e3 if km else 1.0), T[:, tc]])
        if "desc" in c["layout"]:
            M = M[::-1]
        f = os.path.join(os.environ["MC_TMP"], f"t{os.getpid()}.dat")
        np.savetxt(f, M, fmt="%.17g"); T = M
        cols = (3, 4, 2, 0)
    kw = dict(heightInKmFlag=km)
    if c["kind"]:
        kw["intType"] = c["kind"]
    if c["hist"] == "reloaded":   # another table was loaded and used before
        o = "MARS" if b != "MARS" else "TITAN"
        g = ref.ATM[o]
        p.loadAtmosphereModel(g[0], *g[1:5], heightInKmFlag=g[5]); p.density(1000.0); p.densityvectorized(np.array([0.0, 5e3])); R.step(3)
    if c["hist"] == "variant":    # a table of the same shape (same file name, heights and columns, other values) was loaded and used before
        g = os.path.join(os.environ["MC_TMP"], f"v{os.getpid()}.dat")
        W = T.copy(); W[:, list(cols[1:])] *= np.array([0.9, 1.3, 0.7])
        np.savetxt(g, W, fmt="%.17g")
        p.loadAtmosphereModel(g, *cols, **kw); p.density(1000.0); p.rhovectorized(np.array([C[0] + 5e3])); R.step(3)
        np.savetxt(g, T, fmt="%.17g"); f = g
    p.loadAtmosphereModel(f, *cols, **kw); R.step()
    kind = c["kind"] or "cubic"
    h = T[:, cols[0]] * (1e3 if km else 1.0)
    o = np.argsort(h); h = h[o]; tt, pp, dd = (T[:, k][o] for k in cols[1:])
    aa = np.sqrt(C[4] * pp / dd)
    from scipy.interpolate import interp1d
    fd, ft, fp = (interp1d(h, x, kind=kind, fill_value=0.0, bounds_error=False) for x in (dd, tt, pp))
    fa = interp1d(h, aa, kind=kind, fill_value=1e20, bounds_error=False)
    thr = [x * 1e3 for x in C[9:13]]
    grid = np.array(sorted(set(list(h[1:-1]) + list((h[1:] + h[:-1]) / 2) + [0.0, 1.0, 0.5] + [t + e for t in thr for e in (-1.0, 0.0, 1.0)] +
                               list((h[1:-1] * 0.3 + h[2:] * 0.7)))))
    grid = grid[(grid > h[0]) & (grid < h[-1])]
    edge = np.array([h[0], h[-1]])
    outside = np.array([h[0] - 1e3, h[0] - 10e3, h[-1] + 1.0, h[-1] + 1e5, 1e9])
    RP = C[0]
    inp = grid.copy(); rin = p.computeR(grid)
    R.near(rin, RP + grid, "computeR", rtol=1e-12); R.near(p.computeH(rin), grid, "computeH-inverse", atol=1e-6)
    tab = [("densityvectorized", fd, 0), ("tempvectorized", ft, 0), ("presvectorized", fp, 0), ("avectorized", fa, 0),
           ("rhovectorized", fd, 1), ("temperaturevectorized", ft, 1), ("pressurevectorized", fp, 1), ("sonicvectorized", fa, 1)]
    for name, F, isr in tab:
        x = RP + grid if isr else grid
        w = F(grid if not isr else x - RP)
        sc = np.max(np.abs(w)) * 1e-9 if "a" == name[0] or "son" in name else 0
        # round-off in r - RP moves the altitude by <1e-8 m; density varies by 1e-12 relative; cubic splines may cross zero
        R.near(getattr(p, name)(x), w, name, rtol=1e-7, atol=1e-7 * np.min(np.abs(F(h))), ctx=name); R.step()
        R.near(x, RP + grid if isr else grid, "input-mutated", rtol=0, ctx=name)
        whole = np.round(x[:: max(1, len(x) // 40)]).astype(int)                    # whole metres
        inside = (whole - (RP if isr else 0) > h[0]) & (whole - (RP if isr else 0) < h[-1])
        R.near(getattr(p, name)(whole[inside]), F((whole - RP if isr else whole)[inside]), name + ":integers", rtol=1e-7, atol=1e-7 * np.min(np.abs(F(h))), ctx=name)
        xo = RP + outside if isr else outside
        g = np.asarray(getattr(p, name)(xo)); R.step()
        if F is fa:
            R.ok(np.all(g >= 1e10), name + ":outside", f"{g}")
        else:
            R.ok(np.all(g == 0), name + ":outside", f"{g}")
        for n in (1, 2):   # short arrays, order independence
            R.near(getattr(p, name)(x[:n][::-1].copy()), w[:n][::-1], name + ":short", rtol=1e-7, atol=1e-7 * np.min(np.abs(F(h))))
        if not isr:   # table reproduced at its nodes
            node = h[1:-1]; src = {fd: dd, ft: tt, fp: pp, fa: aa}[F][1:-1]
            R.near(getattr(p, name)(node), src, name + ":nodes", rtol=1e-6)
    R.ok(np.array_equal(grid, inp), "input-mutated", "look-up changed its argument")
    # long histories are looked up like short ones
    big = np.linspace(h[0] + 1e-3, h[-1] - 1e-3, 7001)
    R.near(p.computeR(big), RP + big, "computeR:long", rtol=1e-12); R.near(p.computeH(RP + big), big, "computeH:long", atol=1e-6)
    for name, F, isr in tab:
        x = RP + big if isr else big
        R.near(getattr(p, name)(x), F(x - RP if isr else big), name + ":long", rtol=1e-7, atol=1e-7 * np.min(np.abs(F(h))), ctx=name); R.step()
    # scalar look-ups
    sg = np.concatenate([grid[:: max(1, len(grid) // 150)], np.array([0.0, -1.0, -0.5, -1e-6, -5e3, -1e6] + [t + e for t in thr for e in (-1.0, 0.0, 0.5, 1.0, 50.0)] + [1e7])])
    for x in sg:
        w = C[3] if x < 0 else (0.0 if x > C[9] * 1e3 else float(fd(x)))
        at = 1e-7 * np.min(dd)
        R.near(p.density(float(x)), w, "density", rtol=1e-7, atol=at, ctx=f"h={x}")
        if abs(x) > 0 and abs(x - C[9] * 1e3) > 1e-3 and abs(x - h[0]) > 1e-3 and abs(x - h[-1]) > 1e-3 and not (-1e-3 < x < 1e-3):
            for th, ph in ((0.0, 0.0), (2.5, -1.2)):
                R.near(p.rho(RP + x, th, ph), w, "rho", rtol=1e-6, atol=at)
                R.near(p.rho2((RP + x) / RP, th, ph), w, "rho2", rtol=1e-6, atol=at)
                R.near(p.rhobar((RP + x) / RP, th, ph), w / C[3], "rhobar", rtol=1e-6, atol=at / C[3])
        R.step(4)
    # a ceiling the user sets
    top0 = p.h_thres
    for frac in (0.5, 0.83, 1.0):
        p.h_thres = top = top0 * frac
        for x in (0.2 * top, top - 1.0, top, top + 1.0, 0.5 * (top + top0) + 2.0, -3.0):
            w = C[3] if x < 0 else (0.0 if x > top else float(fd(x)))
            R.near(p.density(x), w, "density-user-ceiling", rtol=1e-7, atol=1e-7 * np.min(dd), ctx=f"h={x} ceiling {top}")
            if x != top:
                R.near(p.rhobar((RP + x) / RP, 0.0, 0.0), w / C[3], "density-user-ceiling", rtol=1e-6, atol=1e-7 * np.min(dd) / C[3], ctx=f"h={x} ceiling {top}")
    p.h_thres = top0
    R.near(p.rbar(RP * 1.25), 1.25, "rbar")
    # conversions
    for k, st in enumerate(itertools.product((RP, RP + 2e5), (0.3, -4.0), (1.2, -0.4), (100.0, 5e4), (0.0, 7.0), (-1.5, 0.2), (0.0, 3e6))):
        nd = p.nonDimState(*st); R.step(2)
        Vr = np.sqrt(C[2] / RP)
        R.near(nd, [st[0] / RP, st[1], st[2], st[3] / Vr, st[4], st[5], st[6] / RP], "nonDimState", rtol=1e-6)
        back = p.dimensionalize(0.25, *nd)
        R.near(back, [0.25 * RP / Vr] + list(st), "dimensionalize", rtol=1e-6, atol=1e-9)
        arr = p.dimensionalize(*[np.array([q, q]) for q in (0.25, *nd)])
        R.near([q[1] for q in arr], [0.25 * RP / Vr] + list(st), "dimensionalize-array", rtol=1e-6, atol=1e-9)
    R.outcome(b, c["kind"], c["layout"], tuple(np.round(fd(grid[:20]), 9)))
    R.state(b, c["kind"], c["layout"], c["hist"])
    R.sample = dict(case=c, altitudes=len(grid) + len(sg), density_at_nodes=[float(x) for x in dd[:3]])
