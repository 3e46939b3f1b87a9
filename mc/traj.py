"""Oracles for trajectories: multiple-shooting residual of the equations of motion, loads and heating from samples."""
import numpy as np
from . import ref

ATMPA = 1.01325e5
CONV = {"VENUS": 1.8960e-8, "EARTH": 1.7623e-8, "MARS": 1.8980e-8, "JUPITER": 0.6556e-8, "SATURN": 0.6356e-8, "TITAN": 1.7407e-8}
EARTH_F = (np.array([9., 10, 11, 12, 13, 14, 15, 16]) * 1e3, np.array([1.5, 35, 151, 359, 660, 1065, 1550, 2040]))


def q_con(body, RN, rho, v):
    rho, v = np.asarray(rho, float), np.asarray(v, float)
    if body in CONV:
        return CONV[body] * np.sqrt(rho / RN) * v**3
    return 2.24008e-7 * rho**0.452130 * v**2.6918 * np.sqrt(0.291 / RN)


def q_rad(body, RN, rho, v):
    rho, v = np.asarray(rho, float), np.asarray(v, float)
    if body == "VENUS":
        f = np.where(v < 8000., 3.33e-34 * v**10, np.where(v < 1e4, 1.22e-16 * v**5.5, 3.07e-48 * v**13.4))
        return f * rho**1.2 * RN**0.49
    if body == "EARTH":
        return 4.736e4 * RN**0.6 * rho**1.22 * np.where(v < 9000., 0., np.interp(v, *EARTH_F))
    if body in ("MARS", "TITAN"):
        return 0. * rho
    if body in ("JUPITER", "SATURN"):
        return 9.7632379e-40 * (2 * RN)**(-0.17905) * rho**1.763827469 * v**10.993852 * 0.1
    return 8.125812e-3 * rho**0.498140 * (v / 1e4)**15.113 * (RN / 0.291)


NAMES = ["rc", "thetac", "phic", "vc", "psic", "gammac", "drangec"]


def states(v):
    return np.array([np.asarray(getattr(v, n), float) for n in NAMES])


def scale(p):
    return np.array([p.RP, 1, 1, p.Vref, 1, 1, p.RP])[:, None]


def regular(gamma, lim=-85.0):
    """number of leading samples before the near-vertical (heading-singular) part of a flight"""
    bad = np.flatnonzero(~(np.degrees(gamma) > lim))
    return int(bad[0]) if len(bad) else len(gamma)


def residual(p, t, Y, dens, ldc, ddc, bank, maxstep=0.25):
    """one reference flow per sample interval: returns |flow(sample i) - sample i+1| scaled (7, N-1)"""
    B = ref.Body(p)
    dt = np.diff(t)
    if len(dt) == 0:
        return np.zeros((7, 0))
    sub = int(np.ceil(max(dt.max(), 1e-9) / maxstep))
    Z = ref.flow(B, Y[:, :-1], dt, dens, ldc if np.ndim(ldc) == 0 else ldc, ddc, bank, sub)
    return np.abs(Z - Y[:, 1:]) / scale(p)


def util_dict(tup):
    keys = ["t_min", "h_km", "v_kms", "phi_deg", "psi_deg", "theta_deg", "gamma_deg", "drange_km", "exitflag", "acc_net_g",
            "dyn_pres_atm", "stag_pres_atm", "q_stag_total", "heatload", "acc_drag_g"]
    assert len(tup) == len(keys)
    return dict(zip(keys, tup))


def main_dict(v):
    return dict(t_min=v.t_minc, h_km=v.h_kmc, v_kms=v.v_kmsc, phi_deg=v.phi_degc, psi_deg=v.psi_degc, theta_deg=v.theta_degc, gamma_deg=v.gamma_degc,
                drange_km=v.drange_kmc, exitflag=v.exitflag, acc_net_g=v.acc_net_g, dyn_pres_atm=v.dyn_pres_atm, stag_pres_atm=v.stag_pres_atm,
                q_stag_total=v.q_stag_total, heatload=v.heatload, acc_drag_g=v.acc_drag_g)


def spec_classify(h, skip, trap):
    """reference classification: (index, flag)"""
    h = np.asarray(h, float)
    if h.min() >= 0 and np.any(h > skip + 1e-6):
        return int(np.flatnonzero(h > skip + 1e-6)[0]), 1
    if np.any(h < trap):
        return int(np.flatnonzero(h < trap)[0]), -1
    return len(h), 0


def loads(body, A, rc, vc, CD, LD, area, mass, RN, dens=None):
    """reference load histories from samples"""
    h = rc - A.RP
    rho = A.fd(h) if dens is None else dens(h)
    q = 0.5 * rho * vc**2
    drag = q * CD * area / mass
    CL = LD * CD
    lift = q * CL * area / mass
    con, rad = q_con(body, RN, rho, vc), q_rad(body, RN, rho, vc)
    return dict(acc_net_g=np.sqrt(drag**2 + lift**2) / ref.G0, acc_drag_g=np.abs(drag) / ref.G0, dyn_pres_atm=q / ATMPA,
                stag_pres_atm=(A.fp(h) + q) / ATMPA, q_stag_con=con, q_stag_rad=rad, q_stag_total=con + rad)


def trapz_load(q, t, q0):
    return q0 + np.concatenate([[0.0], np.cumsum(0.5 * (q[1:] + q[:-1]) * np.diff(t))])
