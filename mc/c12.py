"""C12: the bank controller explored as a transition system: states = bank angles reachable under every command sequence, one real controller call per transition."""
import itertools
import numpy as np
from . import ref
from .c04 import snapshot, unchanged, diff
PID, LEVEL = "C12", "model_checking"
RULE = ("breadth-first reachability of the controller's bank angle for every roll rate x cycle time, from every start angle, under every command of the alphabet at every step "
        "(to closure, or to the stated depth when the step does not divide the alphabet); every transition is one real call compared with the saturated-step model; "
        "plus settling: from every start to every command until reached; states = (rate, dt, bank), transitions = controller calls")
ASSUME = ["roll rate and cycle time positive", "agreement with the command to 1e-9 deg counts as exact"]
CHUNK = 1
RATES = [0.04, 0.1, 1.0, 2.345, 5.0, 20.0, 30.0, 37.3, 500.0]
DTS = [0.05, 0.1, 1.0, 1.237, 2.5, 7.0]
CMDS = [0.0, 12.5, 45.0, 89.99, 90.0, 135.0, 179.0, 180.0, -30.0, -180.0, 200.0, 360.0]
STARTS = [0.0, 180.0, 90.0, 45.0, 33.3, -75.0, 271.0]


def cases(tier):
    return [dict(rate=r, dt=d, cap=1500 if tier == "quick" else 20000) for r in RATES for d in DTS]


def step(R, v, keep, cmd, cur, rate, dt):
    a, b = v.psuedoController(cmd, cur, dt); R.step()
    lim = rate * dt
    want = cur + max(-lim, min(lim, cmd - cur))
    ctx = lambda: f"command {cmd} from {cur!r} rate {rate} dt {dt}: got {a!r},{b!r} want {want!r}"
    R.ok(abs(a - want) <= 1e-9 and abs(b - want) <= 1e-9, "step", ctx)
    R.ok(abs(a - cur) <= lim + 1e-9, "rate-limit", ctx)
    R.ok((a - cmd) * (cur - cmd) >= -1e-9 and abs(a - cmd) <= abs(cur - cmd) + 1e-9, "passes-command", ctx)
    R.ok(unchanged(v, keep), "vehicle-changed", ctx)
    return float(a)


def run(c, R):
    rate, dt = c["rate"], c["dt"]
    v = ref.mk_vehicle(ref.mk_planet("VENUS", load=False))
    v.setMaxRollRate(rate)
    keep = snapshot(v)
    seen, todo = {}, [(s, 0) for s in STARTS]
    for s in STARTS:
        seen[round(s, 7)] = 0
    depth = 0
    while todo and len(seen) < c["cap"]:
        cur, d = todo.pop(0); depth = max(depth, d)
        R.state(rate, dt, round(cur, 7))
        for cmd in CMDS:
            n = step(R, v, keep, cmd, cur, rate, dt)
            k = round(n, 7)
            if k not in seen:
                seen[k] = d + 1; todo.append((n, d + 1))
        if len(R.problems) > 15:
            return
    # settling from every start to every command
    for s, cmd in itertools.product(STARTS, CMDS):
        need = int(np.ceil(abs(cmd - s) / (rate * dt) - 1e-9))
        cur = s
        for i in range(min(need, 4000)):
            cur = step(R, v, keep, cmd, cur, rate, dt)
            if len(R.problems) > 15:
                return
        if need <= 4000:
            R.ok(abs(cur - cmd) <= 1e-7, "reaches-command", lambda: f"from {s} to {cmd} rate {rate} dt {dt}: {cur!r} after {need} steps")
            for _ in range(3):
                cur = step(R, v, keep, cmd, cur, rate, dt)
                R.ok(abs(cur - cmd) <= 1e-7, "stays-on-command", lambda: f"at {cur!r} for {cmd}")
        R.outcome(rate, dt, s, cmd, need)
    # the limit set last is the one that applies; numpy scalars and changes of cycle time between steps
    for r2 in RATES:
        v.setMaxRollRate(r2); k2 = snapshot(v)
        cur = 10.0
        for cmd, d2 in itertools.product(CMDS[::2], DTS):
            cur = step(R, v, k2, np.float64(cmd), np.float64(cur), r2, d2)
    R.sample = dict(case=c, reachable=len(seen), depth=depth, closed=not todo)
