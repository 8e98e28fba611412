"""C18: orbit conversions."""
import numpy as np
import pandas as pd
from scipy.integrate import quad

from vlib.common import Check
from vlib import world as W
from checks.c17 import rot, state

GMS = 2.9591220828559115e-04
GMT = 2.9630927487993194e-04
EPS = np.radians(84381.448 / 3600)


def make():
    ck = Check(
        "C18",
        "Each case is one element set converted by the real code (elements to state, state to elements, orbit-table row to "
        "barycentric state, row to perihelion elements); elements include circular, near-parabolic, parabolic and hyperbolic "
        "orbits, planar, polar and retrograde ones and states exactly at the apsides. Non-trivial = a conversion was judged.",
        ["time of perihelion of a state within 1e-9 of parabolic is not judged (ill-conditioned in double precision)",
         "bodies further than 1500 au at the epoch on unbound orbits are not tried",
         "angles that are undefined (node of a planar orbit, perihelion of a circular one) are judged through the state they give"],
    )
    ck.need("states_judged", 1500)
    ck.need("elements_judged", 1500)
    ck.need("rows_judged", 300)
    ck.need("hyperbolic", 200)
    ck.need("near_parabolic", 100)
    ck.need("exact_axis_states", 50)
    return ck


def time_from_perihelion(q, e, nu, mu):
    """Independent: closed form well away from e=1, quadrature of Kepler's second law near it."""
    D = np.tan(nu / 2)
    lam = (1 - e) / (1 + e)
    if abs(e - 1) > 0.05 and e < 1:
        E = 2 * np.arctan(np.sqrt(lam) * D)
        a = q / (1 - e)
        return np.sqrt(a ** 3 / mu) * (E - e * np.sin(E))
    if e > 1.05:
        F = 2 * np.arctanh(np.clip(np.sqrt(-lam) * D, -1 + 1e-16, 1 - 1e-16))
        a = q / (e - 1)
        return np.sqrt(a ** 3 / mu) * (e * np.sinh(F) - F)
    h = np.sqrt(mu * q * (1 + e))
    v, err = quad(lambda x: (1 + x * x) / (1 + lam * x * x) ** 2, 0, D, epsabs=0, epsrel=1e-12, limit=400)
    return 2 * q * q / h * v


def elements(rng):
    k = rng.integers(10)
    q = float(10 ** rng.uniform(-1.5, 2))
    if k <= 3:
        e = float(rng.uniform(0, 0.95))
    elif k == 4:
        e = float(rng.choice([0.0, 1e-9, 1e-4]))
    elif k == 5:
        e = float(1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -2))
    elif k == 6:
        e = 1.0
    elif k == 7:
        e = float(rng.uniform(0.95, 0.9999))
    else:
        e = float(rng.uniform(1.001, 6))
    inc = float(rng.choice([rng.uniform(0, np.pi), 0.0, np.pi / 2, np.pi, 1e-6, np.pi - 1e-6, rng.uniform(0, 0.2)], p=[0.6, 0.06, 0.08, 0.06, 0.04, 0.04, 0.12]))
    ang = lambda: float(rng.choice([rng.uniform(0, 2 * np.pi), rng.uniform(-np.pi, np.pi), 0.0, np.pi / 2, np.pi, 1.5 * np.pi], p=[0.5, 0.2, 0.1, 0.06, 0.08, 0.06]))
    return q, e, inc, ang(), ang()


def period(q, e, mu):
    return 2 * np.pi * np.sqrt((q / (1 - e)) ** 3 / mu) if e < 1 else np.inf


def judge_state(ck, what, got, q, e, inc, node, w, dt, mu, wit):
    """got (6,) must be the two-body state dt days after perihelion."""
    got = np.asarray(got, float)
    if not ck.ensure(np.all(np.isfinite(got)), f"{what}: conversion gave a non-finite state", wit):
        return
    x, v = got[:3], got[3:]
    P, Q = rot(inc, node, w)
    Wv = np.cross(P, Q)
    xp, xq, xw = x @ P, x @ Q, x @ Wv
    r = np.linalg.norm(x)
    nu = np.arctan2(xq, xp)
    p = q * (1 + e)
    # on the conic
    den = 1 + e * np.cos(nu)
    tolr = 1e-8 + 1e-12 / max(den, 1e-13)
    ck.ensure(abs(xw) <= 1e-9 * r, f"{what}: position is out of the orbital plane", wit)
    ck.ensure(abs(r * den - p) <= 1e-8 * p + 4e-15 * r * 10, f"{what}: position is not on the conic described by the elements", wit)
    vt = np.sqrt(mu / p) * (-np.sin(nu) * P + (e + np.cos(nu)) * Q)
    ck.ensure(np.linalg.norm(v - vt) <= 1e-8 * np.linalg.norm(vt) + 1e-7 * np.sqrt(mu / r) * tolr, f"{what}: velocity is not that of the orbit", wit)
    if e < 1 and abs(e - 1) < 0.05 and abs(nu) > 3.0:
        ck.ev("timing_not_judged_near_aphelion_of_extreme_orbit")
        return
    t = time_from_perihelion(q, e, nu, mu)
    d = t - dt
    per = period(q, e, mu)
    if np.isfinite(per):
        d = (d + per / 2) % per - per / 2
    # convert the timing mismatch into a fraction of the dynamical time at that place
    speed = np.linalg.norm(vt)
    cond = 1e-8 if not np.isfinite(per) else 1e-8 + 1e-15 * abs(dt) / per * per * speed / r
    ck.ensure(abs(d) * speed / r <= cond + 1e-8 * (1 + abs(dt) * 1e-3 * speed / r) + 1e-14 / max(den, 1e-12),
              f"{what}: the body is not where Kepler's equation puts it ({d:.3g} days off)", wit)
    ck.ev("states_judged")
    ck.ev("hyperbolic", e > 1.0001)
    ck.ev("near_parabolic", abs(e - 1) < 1e-2)


def forward(ck):
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian

    rng = ck.rng("fwd")
    for i in range(ck.n(2500, 40000)):
        q, e, inc, node, w = elements(rng)
        mu = float(rng.choice([GMS, GMT]))
        epoch = 2400000.5 + float(rng.uniform(50000, 65000))
        span = min(period(q, e, mu) * 3, 40000.0)
        if e > 1:
            span = min(span, 1500.0 / np.sqrt(mu * (e - 1) / q))
        dt = float(rng.choice([0.0, rng.uniform(-1, 1) * span, rng.uniform(-1, 1) * min(span, 500), rng.uniform(-1, 1)]))
        tp = epoch - dt
        dt = epoch - tp
        el = {"mu": mu, "q": q, "e": e, "inc": inc, "node": node, "argperi": w, "tp": tp, "epoch": epoch}
        ck.case(el, True, el)
        got = ck.must(universal_cartesian, mu, q, e, inc, node, w, tp, epoch, _w=el)
        judge_state(ck, "elements to state", got, q, e, inc, node, w, dt, mu, lambda: {"elements": el, "state": got})


def mod(d):
    return (d + np.pi) % (2 * np.pi) - np.pi


def judge_elements(ck, what, el, x, v, epoch, mu, wit, true=None):
    """The six returned elements must describe the state (x, v)."""
    q, e, inc, node, w, tp = (float(z) for z in el)
    if not ck.ensure(np.all(np.isfinite([q, e, inc, node, w, tp])), f"{what}: conversion gave non-finite elements", wit):
        return
    r, s2 = np.linalg.norm(x), v @ v
    h = np.cross(x, v)
    ev = np.cross(v, h) / mu - x / r
    te = np.linalg.norm(ev)
    tq = (h @ h) / mu / (1 + te)
    ok = ck.ensure(abs(e - te) <= 1e-9 + 1e-9 * te, f"{what}: eccentricity is wrong", wit)
    ok &= ck.ensure(abs(q - tq) <= 1e-9 * tq, f"{what}: perihelion distance is wrong", wit)
    if not ok:
        return
    P, Q = rot(inc, node, w)
    hh = h / np.linalg.norm(h)
    ck.ensure(np.linalg.norm(np.cross(P, Q) - hh) <= 3e-7, f"{what}: inclination and node do not give the orbital plane", wit)
    if te > 1e-6:
        ck.ensure(np.linalg.norm(P - ev / te) <= 3e-7 + 1e-12 / te, f"{what}: the direction of perihelion is wrong", wit)
    ck.ev("elements_judged")
    if abs(te - 1) < 1e-9 and abs(te - 1) > 1e-15:
        return
    if te > 1e-4:
        nu = np.arctan2(x @ np.cross(hh, ev / te), x @ (ev / te))
        if te < 1 and abs(te - 1) < 0.05 and abs(nu) > 3.0:
            return
        t = time_from_perihelion(tq, te, nu, mu)
        d = (epoch - tp) - t
        per = period(tq, te, mu)
        if np.isfinite(per):
            d = (d + per / 2) % per - per / 2
        dyn = r / np.sqrt(s2)
        cond = 1e-7 + 3e-14 / abs(te - 1) if te != 1 else 1e-6
        lim = (cond + 1e-11 / te) * (abs(t) + dyn) + 1e-8
        ck.ensure(abs(d) <= lim, f"{what}: time of perihelion is {d:.3g} days off", wit)
    else:
        # circular: the elements together must still reproduce the state
        mm = np.sqrt(mu / (q / (1 - e)) ** 3)
        u = mod(w + mm * (epoch - tp) - np.arctan2(x @ np.cross(hh, nodevec(node)), x @ nodevec(node)))
        ck.ensure(abs(u) <= 1e-5 + 4 * te, f"{what}: position along a circular orbit is {u:.3g} rad off", wit)


def nodevec(node):
    return np.array([np.cos(node), np.sin(node), 0.0])


def backward(ck):
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cometary, universal_cartesian, universal_keplerian

    rng = ck.rng("bwd")
    axes = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]], float)
    for i in range(ck.n(2500, 40000)):
        mu = float(rng.choice([GMS, GMT]))
        epoch = 2400000.5 + float(rng.uniform(50000, 65000))
        if i % 8 == 0:
            # states exactly on an axis and exactly at an apsis
            a, b = rng.choice(6, 2, replace=False)
            if a % 3 == b % 3:
                continue
            r = float(10 ** rng.uniform(-0.5, 1.5))
            x = axes[a] * r
            v = axes[b] * np.sqrt(mu / r) * float(rng.choice([0.6, 0.9, 1.1, 1.3, 1.6]))
            if rng.random() < 0.4:
                v = v + axes[a] * np.sqrt(mu / r) * float(rng.choice([0.2, -0.2]))
            ck.ev("exact_axis_states")
            el = {"axis_state": [x, v]}
        else:
            q, e, inc, node, w = elements(rng)
            lim = np.pi - 0.02 if e < 0.9 else (2.9 if e <= 1 else 0.98 * np.arccos(-1 / e))
            nu = float(rng.uniform(-lim, lim))
            x, v = state(q, e, inc, node, w, nu, mu)
            if np.linalg.norm(x) > 1500:
                continue
            el = {"q": q, "e": e, "inc": inc, "node": node, "argperi": w, "nu": nu}
        ck.case([el, mu, epoch], True, el)
        wit = lambda: {"x": x, "v": v, "epoch": epoch, "mu": mu, "elements": got, "made_from": el}
        got = ck.must(universal_cometary, mu, *map(float, x), *map(float, v), epoch, _w=el)
        judge_elements(ck, "state to elements", got, x, v, epoch, mu, wit)
        if i % 3 == 0 and got[1] < 0.99:
            a, e2, inc2, node2, w2, M = ck.must(universal_keplerian, mu, *map(float, x), *map(float, v), epoch, _w=el)
            got = (a * (1 - e2), e2, inc2, node2, w2, epoch - M * np.sqrt(a ** 3 / mu))
            judge_elements(ck, "state to Keplerian elements", got, x, v, epoch, mu, wit)
        # and back again
        if i % 2 == 0 and abs(got[1] - 1) > 1e-6 and got[0] > 1e-3:
            back = ck.must(universal_cartesian, mu, *map(float, got), epoch, _w=el)
            d = np.linalg.norm(np.array(back[:3]) - x) / np.linalg.norm(x)
            lim = 2e-6 + 3e-13 / abs(got[1] - 1) + (1e-10 / max(abs(epoch - got[5]), 1) * abs(epoch - got[5]))
            ck.ensure(d <= lim * (1 + np.linalg.norm(v) * abs(epoch - got[5]) / np.linalg.norm(x)), "elements recovered from a state do not give the state back",
                      lambda: {"x": x, "v": v, "back": back, "elements": got})


class StubEphem:
    jd_ref = 2451545.0

    def __init__(self):
        self.asked = []

    def get_particle(self, name, t):
        class Pt:
            pass

        assert str(name).lower() == "sun"
        self.asked.append(t)
        p = Pt()
        p.x, p.y, p.z = 0.005 * np.cos(t / 700), 0.006 * np.sin(t / 900), 0.003 * np.cos(t / 500)
        p.vx, p.vy, p.vz = 5e-6 * np.sin(t / 300), -4e-6 * np.cos(t / 200), 2e-6 * np.sin(t / 400)
        return p


EQ = np.array([[1, 0, 0], [0, np.cos(EPS), -np.sin(EPS)], [0, np.sin(EPS), np.cos(EPS)]])


def rows(ck):
    from sorcha.ephemeris.simulation_parsing import parse_orbit_row, get_perihelion_row

    rng = ck.rng("rows")
    for i in range(ck.n(60, 800)):
        eph = StubEphem()
        cache = {}
        ssb = {}
        epochs = [2400000.5 + float(rng.uniform(55000, 62000)) for _ in range(3)]
        for j in range(12):
            fmt = ["COM", "BCOM", "KEP", "BKEP", "CART", "BCART"][int(rng.integers(6))]
            q, e, inc, node, w = elements(rng)
            if fmt in ("KEP", "BKEP"):
                e = min(e, 0.97) if e < 1 else float(rng.uniform(0, 0.9))
            epoch = epochs[int(rng.integers(3))]
            mu = GMT if fmt[0] == "B" else GMS
            dg = np.degrees
            row = {"ObjID": "x", "FORMAT": fmt, "epochMJD_TDB": epoch - 2400000.5}
            if fmt in ("COM", "BCOM"):
                dt = float(rng.uniform(-1, 1)) * min(3000, 1500.0 / np.sqrt(mu * (e - 1) / q) if e > 1 else 3000)
                row.update(q=q, e=e, inc=dg(inc), node=dg(node), argPeri=dg(w), t_p_MJD_TDB=epoch - 2400000.5 - dt)
                dt = epoch - (row["t_p_MJD_TDB"] + 2400000.5)
            elif fmt in ("KEP", "BKEP"):
                ma = float(rng.choice([rng.uniform(0, 360), rng.uniform(-180, 180), 0.0, 180.0]))
                a = q / (1 - e)
                row.update(a=a, e=e, inc=dg(inc), node=dg(node), argPeri=dg(w), ma=ma)
                dt = np.radians(ma) * np.sqrt(a ** 3 / mu)
            else:
                lim = 2.8 if e <= 1 else 0.95 * np.arccos(-1 / e)
                nu = float(rng.uniform(-lim, lim))
                x, v = state(q, e, inc, node, w, nu, mu)
                row.update(x=x[0], y=x[1], z=x[2], xdot=v[0], ydot=v[1], zdot=v[2])
                dt = None
            sr = pd.Series(row)
            sun = eph.get_particle("Sun", epoch - eph.jd_ref)
            spos, svel = np.array([sun.x, sun.y, sun.z]), np.array([sun.vx, sun.vy, sun.vz])
            wit = lambda: {"row": row, "epoch": epoch, "got": got, "sun": [spos, svel]}
            got = ck.must(parse_orbit_row, sr, epoch, eph, cache, GMS, GMT, _w=row)
            ck.case([row], True, row)
            g = np.array(got, float)
            if fmt[0] != "B":
                g = g - np.concatenate([spos, svel])
            ecl = np.concatenate([EQ.T @ g[:3], EQ.T @ g[3:]])
            if dt is None:
                ck.ensure(np.allclose(ecl, np.concatenate([x, v]), rtol=1e-9, atol=1e-12), f"{fmt} row: state is not the one given, rotated to the equator", wit)
                ck.ev("states_judged")
            else:
                judge_state(ck, f"{fmt} row", ecl, q, e, inc, node, w, dt, mu, wit)
            ck.ev("rows_judged")
            # perihelion elements of the same row, heliocentric
            if fmt in ("BKEP", "BCART", "CART", "BCOM", "KEP", "COM"):
                pe = ck.must(get_perihelion_row, sr, epoch, eph, ssb, GMS, GMT, _w=row)
                el = (pe[0], pe[1], np.radians(pe[2]), np.radians(pe[3]), np.radians(pe[4]), pe[5] + 2400000.5)
                hx = np.array(got[:3]) - spos
                hv = np.array(got[3:]) - svel
                hx, hv = EQ.T @ hx, EQ.T @ hv
                te = np.linalg.norm(np.cross(hv, np.cross(hx, hv)) / GMS - hx / np.linalg.norm(hx))
                if abs(te - 1) > 1e-3 and te > 1e-3 and np.linalg.norm(hx) < 2000:
                    judge_elements(ck, f"perihelion of a {fmt} row", el, hx, hv, epoch, GMS, lambda: {"row": row, "elements": pe, "helio_state": [hx, hv]})


def parts():
    return [("forward", forward), ("backward", backward), ("rows", rows)]
