"""C22: launch capability. All small tables (every order of the rows), the shipped tables, all query positions relative to the table, all short sequences of scalar and array queries over two launchers;
trajectory databases with every pattern of rows inside and outside the table."""
import os, itertools
import numpy as np
from . import ref
PID, LEVEL = "C22", "model_checking"
RULE = ("tables: every shipped table and every row order of 2- to 5-row tables x interpolation kind; queries: at, between, just outside and far outside the table, as scalar, list, array, series, empty and "
        "2-D array; every sequence of 3 queries from an alphabet of 6 on two launchers sharing nothing; databases: every pattern of 4 rows over {inside, at an end, outside} x sheet x date format, and the data "
        "handed to every plot; distinct = (table, query) and (database, row) pairs")
ASSUME = ["table energies are distinct", "the spreadsheet reader is replaced by an in-memory table (no Excel engine is installed), drawing to files is recorded instead of written"]
CHUNK = 2


def cases(tier):
    out = []
    d = os.path.join(ref_repo(), "launcher-data")
    for f in sorted(os.listdir(d)):
        if f.endswith(".csv"):
            out.append(dict(kind="shipped", file=f))
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        out.append(dict(kind="orders", n=n))
    for k in ("nearest", "previous", "next", "quadratic", "cubic", "slinear", "zero"):
        out.append(dict(kind="kinds", interp=k))
    out.append(dict(kind="seq", depth=3 if tier == "quick" else 4))
    for fmt in ("%Y%m%d", "%Y-%m-%d", "%d/%m/%Y"):
        for n in (1, 2, 3, 4):
            out.append(dict(kind="db", fmt=fmt, n=n))
    out.append(dict(kind="plots"))
    return out


def ref_repo():
    from . import core
    return core.REPO


def run(c, R):
    return globals()["run_" + c["kind"]](c, R)


def tmpdir():
    import tempfile
    return tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))


def mk(tab, tmp, name="t.csv", **kw):
    from AMAT.launcher import Launcher
    f = os.path.join(tmp, name)
    np.savetxt(f, np.asarray(tab, float), delimiter=",", fmt="%.17g")
    return Launcher("L", f, **kw)


def linear(tab, x):
    """piecewise linear by hand; 0 outside, ends included"""
    t = sorted((float(a), float(b)) for a, b in tab)
    if x < t[0][0] or x > t[-1][0] or x != x:
        return 0.0
    for (a, p), (b, q) in zip(t, t[1:]):
        if a <= x <= b:
            return p + (q - p) * (x - a) / (b - a)
    return t[0][1]


def positions(tab):
    xs = sorted(float(a) for a, _ in tab)
    q = list(xs) + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [0.1 * a + 0.9 * b for a, b in zip(xs, xs[1:])]
    return q + [xs[0] - 1e-9 * (1 + abs(xs[0])), xs[-1] + 1e-9 * (1 + abs(xs[-1])), xs[0] - 1.0, xs[-1] + 1.0, -1e4, 1e6, 0.0]


def queries(R, L, tab, ctx, want=None):
    import pandas as pd
    w = want or (lambda x: linear(tab, x))
    q = positions(tab)
    W = np.array([w(x) for x in q])
    tol = 1e-9 * max(abs(float(b)) for _, b in tab)
    for x, y in zip(q, W):
        got = np.asarray(L.launchMass(x), float); R.step()
        R.ok(got.shape == (), "scalar-shape", f"{ctx} {got.shape}")
        R.near(got, y, "mass", rtol=1e-9, atol=tol, ctx=lambda: f"{ctx} C3={x}")
        R.state(ctx, x); R.outcome(round(float(y), 6))
    R.near(L.launchMass(np.array(q)), W, "array", rtol=1e-9, atol=tol, ctx=ctx)
    R.near(L.launchMass(list(q)), W, "array", rtol=1e-9, atol=tol, ctx=ctx)
    R.near(L.launchMass(pd.Series(q, index=range(5, 5 + len(q)))), W, "array", rtol=1e-9, atol=tol, ctx=ctx)
    R.near(L.launchMass(np.array(q)[::-1]), W[::-1], "array", rtol=1e-9, atol=tol, ctx=ctx)
    m = 2 * (len(q) // 2)
    R.near(L.launchMass(np.array(q[:m]).reshape(2, -1)), W[:m].reshape(2, -1), "array", rtol=1e-9, atol=tol, ctx=ctx)
    R.ok(np.asarray(L.launchMass(np.array([]))).shape == (0,), "empty", ctx)
    if want is None:
        xs = sorted(float(a) for a, _ in tab)
        for a, b in zip(xs, xs[1:]):
            lo, hi = sorted((linear(tab, a), linear(tab, b)))
            for u in np.linspace(a, b, 7):
                R.ok(lo - tol <= float(L.launchMass(u)) <= hi + tol, "between-neighbours", f"{ctx} {u}")


def run_shipped(c, R):
    from AMAT.launcher import Launcher
    f = os.path.join("launcher-data", c["file"])
    tab = np.loadtxt(os.path.join(ref_repo(), f), delimiter=",")
    R.ok(len(set(tab[:, 0])) == len(tab) and np.all(tab[:, 1] >= 0), "shipped-table", c["file"])
    L = Launcher("x", f)
    R.ok(L.ID == "x", "identifier", "")
    queries(R, L, tab, c["file"])
    L = Launcher("x", datafile=f, kind="linear")
    queries(R, L, tab, c["file"] + " explicit")
    R.sample = dict(case=c, rows=len(tab))


def run_orders(c, R):
    tmp = tmpdir()
    try:
        base = [(-3.5, 900.0), (0.0, 8000.0), (11.25, 5000.5), (30.0, 5000.5), (62.0, 0.0)]
        for tab in itertools.combinations(base, c["n"]):
            for perm in itertools.permutations(tab):
                queries(R, mk(perm, tmp), perm, f"{perm}")
                if len(R.problems) > 10:
                    return
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    R.sample = dict(case=c)


def run_kinds(c, R):
    from scipy.interpolate import make_interp_spline
    tmp = tmpdir()
    k = c["interp"]
    try:
        for tab in ([(0.0, 8000.0), (10.0, 6000.0), (20.0, 4800.0), (50.0, 2000.0), (90.0, 100.0)], [(90.0, 100.0), (5.0, 7000.0), (20.0, 4800.0), (50.0, 2000.0)]):
            t = sorted(tab); X = np.array([a for a, _ in t]); Y = np.array([b for _, b in t])

            def want(x):
                if x < X[0] or x > X[-1]:
                    return 0.0
                i = int(np.searchsorted(X, x, side="right")) - 1
                if k in ("previous", "zero"):
                    return Y[i]
                if k == "next":
                    return Y[int(np.searchsorted(X, x, side="left"))]
                if k == "nearest":
                    j = min(i + 1, len(X) - 1)
                    return Y[i] if x - X[i] <= X[j] - x else Y[j]
                if k == "slinear":
                    return linear(tab, x)
                return float(make_interp_spline(X, Y, k=dict(quadratic=2, cubic=3)[k])(x))
            queries(R, mk(tab, tmp, kind=k), tab, f"{k} {tab}", want)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    R.sample = dict(case=c)


def run_seq(c, R):
    """every sequence of queries gives the same answers as each query alone"""
    tmp = tmpdir()
    try:
        A = [(0.0, 8000.0), (10.0, 6000.0), (50.0, 100.0)]; B = [(-5.0, 500.0), (20.0, 50.0)]
        arr = np.array([3.0, -1.0, 50.0, 51.0])
        alpha = [(0, 5.0), (0, 60.0), (0, arr), (1, 5.0), (1, -5.0), (1, arr)]
        for s in itertools.product(range(len(alpha)), repeat=c["depth"]):
            Ls = [mk(A, tmp, "a.csv"), mk(B, tmp, "b.csv")]
            held = []
            for i in s:
                w, q = alpha[i]
                got = Ls[w].launchMass(q); R.step()
                want = np.vectorize(lambda x: linear((A, B)[w], x))(q)
                held.append((got, want))
            for got, want in held:       # earlier results survive later queries
                R.near(got, want, "history", rtol=1e-9, atol=1e-9, ctx=f"{s}")
            R.ok(np.array_equal(arr, [3.0, -1.0, 50.0, 51.0]), "query-changed", f"{s}")
            R.state(s)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    R.sample = dict(case=c)


class Sheets:
    """in-memory spreadsheets in place of the reader"""
    def __init__(self, d):
        self.d, self.calls = d, []

    def __enter__(self):
        import pandas as pd
        self.pd, self.old = pd, pd.read_excel

        def read(io, sheet_name=0, **k):
            self.calls.append((io, sheet_name))
            return self.d[(io, sheet_name)].copy()
        pd.read_excel = read
        return self

    def __exit__(self, *a):
        self.pd.read_excel = self.old


VALS = dict(i=20.123456789, e=50.0, b=0.0, o=75.0, l=-1.0, j=100.0 / 3)


def frame(pat, fmt, seed):
    import pandas as pd
    days = [20310512, 20300101, 20331231, 20310512] * (1 + len(pat) // 4)
    dates = [pd.Timestamp(str(x)) for x in days[:len(pat)]]
    raw = [int(t.strftime(fmt)) if fmt == "%Y%m%d" else t.strftime(fmt) for t in dates]
    n = len(pat)
    df = pd.DataFrame({"Avinf": [8.0 + seed + k / 7 for k in range(n)], "other": range(n), "Lcdate": raw, "TOF": [12.0 - k / 3 + seed for k in range(n)], "LC3": [VALS[x] for x in pat]})
    return df, dates


def run_db(c, R):
    from AMAT.interplanetary import Interplanetary
    import pandas as pd
    tmp = tmpdir()
    try:
        A = [(0.0, 8000.0), (10.0, 6000.0), (50.0, 100.0)]; B = [(-5.0, 500.0), (20.0, 50.0)]
        Ls = [mk(A, tmp, "a.csv"), mk(B, tmp, "b.csv")]
        long = ["iebojjobei" * 30, "j" * 257] if c["n"] == 2 else []
        for pat in itertools.chain(itertools.product("ieboj", repeat=c["n"]), map(tuple, long)):
            df, dates = frame(pat, c["fmt"], 0)
            df2, dates2 = frame(pat[::-1], c["fmt"], 3)
            with Sheets({("x.xlsx", "S1"): df, ("x.xlsx", "S2"): df2}):
                P = Interplanetary("ID", "x.xlsx", "S1", c["fmt"])
                Q = Interplanetary("ID2", "x.xlsx", sheet_name="S2", Lcdate_format=c["fmt"])
            R.step(2)
            for D, f, ds, p in ((P, df, dates, pat), (Q, df2, dates2, pat[::-1])):
                ctx = f"{c['fmt']} {p}"
                R.ok(list(pd.DatetimeIndex(D.Lcdate)) == ds, "launch-date", lambda: f"{ctx} {list(D.Lcdate)}")
                R.near(np.asarray(D.C3, float), [VALS[x] for x in p], "launch-energy", rtol=1e-12, ctx=ctx)
                R.near(np.asarray(D.TOF, float), f["TOF"].values, "flight-time", rtol=1e-12, ctx=ctx)
                R.near(np.asarray(D.Avinf, float), f["Avinf"].values, "arrival-speed", rtol=1e-12, ctx=ctx)
                for L, tab in zip(Ls, (A, B)):
                    got = D.compute_launch_capability(L)
                    R.near(np.asarray(got, float), [linear(tab, VALS[x]) for x in p], "capability", rtol=1e-9, atol=1e-9, ctx=ctx)
                R.state(ctx)
            R.ok(P.ID == "ID" and Q.ID == "ID2", "identifier", "")
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    R.sample = dict(case=c)


def run_plots(c, R):
    """what each plot shows is the row-by-row pairing of its quantities"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.dates import date2num
    from AMAT.interplanetary import Interplanetary
    tmp = tmpdir()
    saved = []
    old = plt.savefig, plt.show
    plt.savefig = lambda *a, **k: saved.append(a)
    plt.show = lambda *a, **k: None
    try:
        L = mk([(0.0, 8000.0), (10.0, 6000.0), (50.0, 100.0)], tmp)
        for pat in ("ijbe", "oibj", "beio", "ij", "i", "o", "ee", "oo", "jie", "jooi", "ejoiebij"):
            df, dates = frame(tuple(pat), "%Y%m%d", 0)
            with Sheets({("x", "s"): df}):
                P = Interplanetary("ID", "x", "s", "%Y%m%d")
            mass = np.asarray(P.compute_launch_capability(L), float)
            day = date2num(dates)
            tof, av = df["TOF"].values, df["Avinf"].values
            for nm, args, want in (("plot_launch_mass_vs_launch_date", (L,), (day, mass)), ("plot_TOF_vs_launch_date", (), (day, tof)), ("plot_Avinf_vs_launch_date", (), (day, av)),
                                   ("plot_Avinf_vs_launch_date_with_launch_mass_colorbar", (L,), (day, av, mass)), ("plot_launch_mass_vs_TOF", (L,), (tof, mass)),
                                   ("plot_launch_mass_vs_TOF_with_vinf_colorbar", (L,), (tof, mass, av))):
                plt.close("all")
                getattr(P, nm)(*args); R.step()
                fig = plt.figure(plt.get_fignums()[0]) if plt.get_fignums() else None
                if fig is None:
                    continue
                ax = fig.axes[0]
                if ax.lines:
                    xy = np.array([date2num(x) if not isinstance(x, (int, float, np.number)) else x for x in ax.lines[0].get_xdata()], float), np.asarray(ax.lines[0].get_ydata(), float)
                    cols = None
                else:
                    o = np.asarray(ax.collections[0].get_offsets(), float); xy = o[:, 0], o[:, 1]; cols = ax.collections[0].get_array()
                R.near(xy[0], want[0], "plot-x", rtol=1e-12, ctx=f"{nm} {pat}")
                R.near(xy[1], want[1], "plot-y", rtol=1e-9, ctx=f"{nm} {pat}")
                if len(want) > 2 and cols is not None:
                    R.near(cols, want[2], "plot-colour", rtol=1e-9, ctx=f"{nm} {pat}")
                # every trajectory the vehicle can launch is inside the drawn range
                can = mass > 0
                if nm.startswith("plot_launch_mass"):
                    lo, hi = sorted(ax.get_ylim())
                    R.ok(np.all((mass[can] >= lo) & (mass[can] <= hi)), "plot-hides-row", lambda: f"{nm} {pat} masses {mass} axis {lo}..{hi}")
                elif "launch_mass_colorbar" in nm and ax.collections:
                    lo, hi = ax.collections[0].get_clim()
                    R.ok(np.all((mass[can] >= lo - 1e-9) & (mass[can] <= hi + 1e-9)), "plot-hides-row", lambda: f"{nm} {pat} masses {mass} colours {lo}..{hi}")
                R.state(nm, pat)
    finally:
        plt.savefig, plt.show = old
        plt.close("all")
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    R.sample = dict(case=c, files=len(saved))
