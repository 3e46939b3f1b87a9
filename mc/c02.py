"""C02 dispersed density profiles: small synthetic dispersion files, all profiles x sigma levels x layouts; plus shipped files."""
import os, itertools
import numpy as np
from . import ref
PID, LEVEL = "C02", "exploration"
RULE = ("full product: synthetic files of 1..4 profiles with 2..5 nodes (distinct values in every cell) x column permutations x km/m x ascending/descending "
        "heights x every profile index x sigma in {-4.7,-3,-1,-0.5,-0.02,0,0.03,0.25,1,2.5,3.6,6} x file format (densities or percent deviation) x with/without perturbation; "
        "and shipped Venus/Mars/Titan files with first/middle/last profiles")
ASSUME = ["files are generated with positive densities, low < average < high with asymmetric deviations"]
SIG = [-4.7, -3.0, -1.0, -0.5, -0.02, 0.0, 0.03, 0.25, 1.0, 2.5, 3.6, 6.0]
CHUNK = 4


def cases(tier):
    out = []
    for nprof, npos in itertools.product((1, 2, 3, 4), (2, 3, 5)):
        for perm in (0, 1, 2):
            for km in (False, True):
                for desc in (False, True):
                    for fmt in (2, 3):
                        out.append(dict(nprof=nprof, npos=npos, perm=perm, km=km, desc=desc, fmt=fmt))
    for f, npos, n in (("atmdata/Venus/LAT10N.txt", 151, 200), ("atmdata/Mars/LAT20S.txt", 156, 200), ("atmdata/Titan/FMINMAX+00.txt", 201, 200)):
        out.append(dict(file=f, npos=npos, nprof=n))
    return out


def check(R, p, H, lo, av, hi, tot, npos, nprof, idxs, load):
    for i in idxs:
        s = slice((i - 1) * npos, i * npos)
        for k in SIG:
            dev = (hi - av)[s] * k if k >= 0 else (av - lo)[s] * k
            base = av[s] + dev
            for pert in (True, False):
                cols = load()
                keep = [np.array(x, copy=True) for x in cols]
                if pert:
                    F = p.loadAtmosphereModel5(*cols, k, npos, i)
                    want = base + (tot - av)[s]
                else:
                    F = p.loadAtmosphereModel6(*cols[:4], k, npos, i)
                    want = base
                R.step(2)
                R.ok(all(np.array_equal(a, b) for a, b in zip(cols, keep)), "input-mutated", "profile columns changed")
                h = H[s]
                at = 1e-9 * np.max(np.abs(want))
                R.near(F(h), want, "node", rtol=1e-9, atol=at * 1e-3, ctx=f"i={i} k={k} pert={pert}")
                o = np.argsort(h); hs, ws = h[o], want[o]
                for fr in (0.5, 0.2):
                    R.near(F(hs[:-1] * fr + hs[1:] * (1 - fr)), ws[:-1] * fr + ws[1:] * (1 - fr), "between", rtol=1e-9, atol=at * 1e-3)
                R.near(F(np.array([hs[0] - 1.0, hs[-1] + 1.0, hs[-1] + 1e6])), np.zeros(3), "outside", atol=0)
                # used as the planet's atmosphere, the look-ups follow it
                p.density_int = F
                hh = float(hs[0] * 0.5 + hs[1] * 0.5)
                if 0 <= hh <= p.h_thres:
                    R.near(p.density(hh), ws[0] * 0.5 + ws[1] * 0.5, "as-atmosphere", rtol=1e-9)
                    R.near(p.rhovectorized(np.array([p.RP + hh])), [ws[0] * 0.5 + ws[1] * 0.5], "as-atmosphere-vec", rtol=1e-7)
                R.outcome(i, k, pert, npos, tuple(np.round(want, 12)))
                R.state(i, k, pert, npos, nprof)


def run(c, R):
    p = ref.mk_planet("VENUS", load=False)
    if "file" in c:
        T = np.loadtxt(c["file"])
        H, lo, av, hi, tot = T[:, 0] * 1e3, T[:, 1], T[:, 2], T[:, 3], T[:, 4]
        cols = p.loadMonteCarloDensityFile2(c["file"], 0, 1, 2, 3, 4, True)
        for n, g, w in zip(("height", "low", "avg", "high", "pert"), cols, (H, lo, av, hi, tot - av)):
            R.near(g, w, "load:" + n, rtol=1e-12)
        check(R, p, H, lo, av, hi, tot, c["npos"], c["nprof"], (1, 2, c["nprof"] // 2, c["nprof"] - 1, c["nprof"]), lambda: cols)
        return
    n = c["nprof"] * c["npos"]
    k = np.arange(n)
    H = np.tile(np.linspace(10e3, 90e3, c["npos"]), c["nprof"]) + 100.0 * (k // c["npos"])
    av = np.exp(-H / 2e4) * (1 + 0.01 * (k // c["npos"])) + 1e-3 * k
    sd = 3.0 + (k % 7)                      # percent
    if c["fmt"] == 2:
        lo, hi = av * (1 - 0.01 * sd), av * (1 + 0.02 * sd + 0.01)
    else:
        lo, hi = av * (1 - 0.01 * sd), av * (1 + 0.01 * sd)
    tot = av * (1 + 0.05 * np.sin(1.7 * k + 0.3))
    if c["desc"]:
        o = np.concatenate([np.arange(c["npos"])[::-1] + j * c["npos"] for j in range(c["nprof"])])
        H, lo, av, hi, tot, sd = (x[o] for x in (H, lo, av, hi, tot, sd))
    data = dict(h=H / (1e3 if c["km"] else 1), a=av, t=tot, lo=lo, hi=hi, s=sd, j=np.full(n, 9.9))
    order = [["h", "lo", "a", "hi", "t", "s", "j"], ["j", "t", "hi", "a", "lo", "h", "s"], ["a", "s", "h", "j", "t", "lo", "hi"]][c["perm"]]
    f = os.path.join(os.environ["MC_TMP"], f"d{os.getpid()}.txt")
    np.savetxt(f, np.column_stack([data[x] for x in order]), fmt="%.17g")
    col = {x: i for i, x in enumerate(order)}
    if c["fmt"] == 2:
        load = lambda: p.loadMonteCarloDensityFile2(f, col["h"], col["lo"], col["a"], col["hi"], col["t"], c["km"])
    else:
        load = lambda: p.loadMonteCarloDensityFile3(f, col["h"], col["a"], col["s"], col["t"], c["km"])
    for nme, g, w in zip(("height", "low", "avg", "high", "pert"), load(), (H, lo, av, hi, tot - av)):
        R.near(g, w, "load:" + nme, rtol=1e-9, atol=1e-15)
    check(R, p, H, lo, av, hi, tot, c["npos"], c["nprof"], range(1, c["nprof"] + 1), load)
    R.sample = dict(case=c, profiles=c["nprof"], sigmas=SIG)
