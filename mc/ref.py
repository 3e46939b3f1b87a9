"""Independent reference models used as oracles.  Nothing here calls AMAT's numerics: bodies are described by the
constants of a Planet object or of the table below, dynamics are formed in Cartesian vectors."""
import os
import numpy as np
from scipy.interpolate import interp1d

BODIES = ["VENUS", "EARTH", "MARS", "JUPITER", "SATURN", "TITAN", "URANUS", "NEPTUNE"]
D2R = np.pi / 180.0
#            RP m       OMEGA rad/s   GM m3/s2       rho0     cp/cv   J2          J3         a0 deg      d0 deg    h_thres h_skip h_trap h_low (km)
CONST = {
 "VENUS":   (6051.8e3, -2.99237e-7, 3.248599e14,   64.790,  1.289,  4.458e-6,   0.0,       272.76,     67.16,     180, 180, 10, 60),
 "EARTH":   (6371.0e3,  7.272205e-5, 3.986004e14,  1.2250,  1.4,    1082.6e-6, -2.532e-6,  0.0,        90.0,      120, 120, 10, 50),
 "MARS":    (3389.5e3,  7.088253e-5, 4.282837e13,  0.0200,  1.289,  1960.45e-6, 31.5e-6,   317.68143,  52.88650,  120, 120, 10, 50),
 "JUPITER": (69911.0e3, 1.758518e-4, 1.26686534e17, 0.16288, 1.4348, 14736e-6,  0.0,       268.056595, 64.495303, 1000, 1000, 50, 100),
 "SATURN":  (58232.0e3, 1.6379e-4,   3.7931187e16, 0.19847, 1.4348, 16298e-6,   0.0,       40.589,     83.537,    1000, 1000, 50, 100),
 "TITAN":   (2575.0e3,  4.5451280e-6, 8.978e12,    5.43500, 1.4,    31.808e-6, -1.880e-6,  39.4827,    83.4279,   1000, 1000, 30, 300),
 "URANUS":  (25559.0e3, -1.01237e-4, 5.793939e15,  0.3788,  1.450,  3343.3e-6,  0.0,       257.311,   -15.175,    1500, 1500, 10, 10),
 "NEPTUNE": (24622.0e3, 1.083385e-4, 6.8365299e15, 0.44021, 1.450,  3411.0e-6,  0.0,       299.36,     43.36,     1000, 1000, 10, 100),
}
G0 = 9.80665
# file, height, temp, pres, dens columns, heights in km
ATM = {
 "VENUS": ("atmdata/Venus/venus-gram-avg.dat", 0, 1, 2, 3, False),
 "EARTH": ("atmdata/Earth/earth-gram-avg.dat", 0, 1, 2, 3, False),
 "MARS": ("atmdata/Mars/mars-gram-avg.dat", 0, 1, 2, 3, False),
 "JUPITER": ("atmdata/Jupiter/jupiter-galileo-asi.dat", 0, 1, 2, 3, True),
 "SATURN": ("atmdata/Saturn/saturn-nominal.dat", 0, 1, 2, 3, True),
 "TITAN": ("atmdata/Titan/titan-gram-avg.dat", 0, 1, 2, 3, False),
 "URANUS": ("atmdata/Uranus/uranus-ames.dat", 0, 1, 2, 3, False),
 "NEPTUNE": ("atmdata/Neptune/neptune-gram-avg.dat", 0, 7, 6, 5, True),
}


def mk_planet(name, load=True, kind=None):
    from AMAT.planet import Planet
    p = Planet(name)
    if load:
        f, a, b, c, d, km = ATM[name]
        kw = {} if kind is None else dict(intType=kind)
        p.loadAtmosphereModel(f, a, b, c, d, heightInKmFlag=km, **kw)
    return p


# a vehicle per body that flies sensibly: mass, beta, L/D, area, alpha, RN, h0_km, v0_kms, gamma0 (deg, captured at bank 0-90)
VEH = {
 "VENUS":   (1500.0, 120.0, 0.40, 10.0, 0.1, 1.0, 180.0, 11.5, -7.2),
 "EARTH":   (1500.0, 120.0, 0.30, 10.0, 0.35, 1.0, 120.0, 11.8, -6.0),
 "MARS":    (2000.0, 120.0, 0.25, 12.0, -0.2, 1.5, 120.0, 6.0, -11.2),
 "JUPITER": (1000.0, 300.0, 0.40, 6.0, 0.0, 0.8, 1000.0, 58.0, -7.5),
 "SATURN":  (1000.0, 200.0, 0.40, 6.0, 1.2, 0.8, 1000.0, 34.0, -11.5),
 "TITAN":   (2000.0, 90.0, 0.25, 12.0, 0.26, 1.2, 1000.0, 6.5, -37.0),
 "URANUS":  (3200.0, 146.0, 0.24, 16.0, -0.7, 1.0, 1500.0, 24.5, -11.3),
 "NEPTUNE": (3000.0, 200.0, 0.40, 12.0, 0.5, 1.0, 1000.0, 28.0, -12.5),
}


def user_thresholds(p, skip=0.85, low=1.4, trap=0.5):
    """the altitude thresholds a user sets on a planet, as the examples do"""
    p.h_skip, p.h_low, p.h_trap = round(p.h_skip * skip, -3), round(p.h_low * low, -3), round(p.h_trap * trap, -3)
    return p


def mk_vehicle(planet, name=None, **kw):
    """kw may override mass,beta,LD,A,alpha,RN and state h0,theta,phi,v0,psi,gamma,drange,heat,tol,cdmach"""
    from AMAT.vehicle import Vehicle
    m, b, ld, a, al, rn, h0, v0, g0 = VEH[name or planet.ID]
    cd = kw.get("cdmach")
    v = Vehicle(kw.get("vid", "probe"), kw.get("mass", m), kw.get("beta", b), kw.get("LD", ld), kw.get("A", a),
                kw.get("alpha", al), kw.get("RN", rn), planet, **({"userDefinedCDMach": True} if cd else {}))
    if cd:
        v.setCDMachFunction(cd)
    v.setInitialState(kw.get("h0", h0), kw.get("theta", 0.0), kw.get("phi", 0.0), kw.get("v0", v0), kw.get("psi", 0.0),
                      kw.get("gamma", g0), kw.get("drange", 0.0), kw.get("heat", 0.0))
    v.setSolverParams(kw.get("tol", 1e-6))
    return v


class Atmos:
    """own look-up of a table file, semantics of the documentation"""
    def __init__(self, name, planet=None, kind="cubic"):
        f, a, b, c, d, km = ATM[name]
        T = np.loadtxt(f)
        self.h = T[:, a] * (1e3 if km else 1.0)
        self.T, self.p, self.d = T[:, b], T[:, c], T[:, d]
        self.fd = interp1d(self.h, self.d, kind=kind, fill_value=0.0, bounds_error=False)
        self.fp = interp1d(self.h, self.p, kind=kind, fill_value=0.0, bounds_error=False)
        self.fT = interp1d(self.h, self.T, kind=kind, fill_value=0.0, bounds_error=False)
        C = CONST[name]
        self.fa = interp1d(self.h, np.sqrt(C[4] * self.p / self.d), kind=kind, fill_value=1e20, bounds_error=False)
        self.rho0, self.hthres = C[3], C[9] * 1e3
        self.RP = C[0]

    def dens(self, h):
        h = np.asarray(h, float)
        return np.where(h < 0, self.rho0, np.where(h > self.hthres, 0.0, self.fd(h)))


# ---------------------------------------------------------------- dynamics
class Body:
    def __init__(self, p):
        self.RP, self.GM, self.OM, self.J2, self.J3 = p.RP, p.GM, p.OMEGA, p.J2, p.J3


def frames(theta, phi):
    ct, st, cp, sp = np.cos(theta), np.sin(theta), np.cos(phi), np.sin(phi)
    er = np.array([cp * ct, cp * st, sp])
    ee = np.array([-st, ct, 0 * st])
    en = np.array([-sp * ct, -sp * st, cp])
    return er, ee, en


def gravity(B, X):
    """Cartesian gravity with J2,J3 (planet fixed, z = pole)"""
    x, y, z = X
    r2 = x * x + y * y + z * z
    r = np.sqrt(r2)
    s = z / r
    k2 = 1.5 * B.J2 * B.GM * B.RP**2 / r**4
    k3 = 0.5 * B.J3 * B.GM * B.RP**3 / r**5
    gxy = -B.GM / r2 + k2 * (5 * s * s - 1) + k3 * 5 * (7 * s**3 - 3 * s)
    gz0 = -B.GM / r2 + k2 * (5 * s * s - 3)
    gz = gz0 * s + k3 * (35 * s**4 - 30 * s * s + 3)
    return np.array([gxy * x / r, gxy * y / r, gz])


def rhs(B, y, lift, drag, bank, reg=1e-2):
    """SI state (r,theta,phi,v,psi,gamma,drange) -> time derivative.  lift, drag are accelerations (m/s2).
    The lateral channel uses the simulator's documented regularisation cos(gamma)+reg."""
    r, th, ph, v, ps, g, dr = y
    er, ee, en = frames(th, ph)
    cg, sg, cs, ss = np.cos(g), np.sin(g), np.cos(ps), np.sin(ps)
    hv = cs * ee + ss * en                      # horizontal direction of flight
    vhat = sg * er + cg * hv
    nhat = cg * er - sg * hv                    # normal to the velocity, in the vertical plane
    what = -ss * ee + cs * en                   # horizontal, to the left of flight (heading grows)
    X = r * er
    W = np.array([0 * r, 0 * r, B.OM + 0 * r])
    def cross(a, b):
        return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    def dot(a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    a = gravity(B, X) - cross(W, cross(W, X)) - drag * vhat + lift * (np.cos(bank) * nhat + np.sin(bank) * what)
    cor = -2 * cross(W, v * vhat)
    latc = dot(cor, what)                        # 2 OM v (sg cos(ph) ss - cg sin(ph))
    latc_sin = latc + 2 * B.OM * v * cg * np.sin(ph)   # part multiplying sin(gamma)
    dv = dot(a, vhat)
    dg = (dot(a, nhat) + dot(cor, nhat)) / v + v * cg / r
    dps = (dot(a, what) + latc_sin) / (v * (cg + reg)) - 2 * B.OM * np.sin(ph) - v / r * cg * cs * np.tan(ph)
    return np.array([v * sg, v * cg * cs / (r * np.cos(ph)), v * cg * ss / r, dv, dps, dg, v * cg])


def flow(B, y, dt, dens, ldcoef, ddcoef, bank, sub=2):
    """vectorised RK4 from states y (7,N) over dt (N,), lift accel = 0.5 rho v^2 ldcoef, drag = 0.5 rho v^2 ddcoef(or callable)"""
    y = np.array(y, float)
    dt = np.asarray(dt, float) / sub
    def f(y):
        rho = dens(y[0] - B.RP)
        q = 0.5 * rho * y[3]**2
        dd = ddcoef(y[0], y[3]) if callable(ddcoef) else ddcoef
        return rhs(B, y, q * ldcoef, q * dd, bank)
    for _ in range(sub):
        k1 = f(y); k2 = f(y + 0.5 * dt * k1); k3 = f(y + 0.5 * dt * k2); k4 = f(y + dt * k3)
        y = y + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y


# ---------------------------------------------------------------- orbits
def inertial(B_OM, r, v, g, th, ph, ps):
    er, ee, en = frames(th, ph)
    X = r * er
    V = v * (np.sin(g) * er + np.cos(g) * (np.cos(ps) * ee + np.sin(ps) * en))
    V = V + np.cross([0, 0, B_OM], X)
    return X, V


def kepler(GM, X, V):
    r, v = np.linalg.norm(X), np.linalg.norm(V)
    E = v * v / 2 - GM / r
    h = np.cross(X, V)
    ev = np.cross(V, h) / GM - X / r
    e = np.linalg.norm(ev)
    a = -GM / (2 * E)
    return dict(E=E, h=h, hm=np.linalg.norm(h), e=e, a=a, ev=ev, ra=a * (1 + e), rp=a * (1 - e), r=r, v=v)


def R1(t):
    c, s = np.cos(t), np.sin(t); return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
def R2(t):
    c, s = np.cos(t), np.sin(t); return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])
def R3(t):
    c, s = np.cos(t), np.sin(t); return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
def icrf_to_bi(a0, d0):
    """rows: node line, its in-plane normal, pole"""
    pole = np.array([np.cos(d0) * np.cos(a0), np.cos(d0) * np.sin(a0), np.sin(d0)])
    node = np.array([-np.sin(a0), np.cos(a0), 0.0])
    return np.array([node, np.cross(pole, node), pole])
