"""C19: geometry and rates of an ephemeris row."""
import numpy as np
import pandas as pd

from vlib.common import Check
from vlib import world as W

C = 299792.458 * 86400.0 / W.AU_KM  # au/day


def make():
    ck = Check(
        "C19",
        "Each case is one object seen by one observer: analytic trajectories of object, observatory and Sun are handed to the "
        "real light-time and geometry code; the row it produces is judged against positions and numerical derivatives computed "
        "from the same trajectories. Non-trivial = all cases.",
        ["objects within 1e-7 degrees of a celestial pole are not tried", "range rate is judged to v/c (the code neglects the light-time term there)"],
    )
    ck.need("rows_judged", 1500)
    ck.need("rates_judged", 1500)
    ck.need("near_pole", 80)
    ck.need("near_ra_wrap", 80)
    ck.need("exact_opposition_or_conjunction", 50)
    return ck


class Track:
    """Smooth analytic trajectory, au and days."""

    def __init__(self, x0, v0, a0):
        self.x0, self.v0, self.a0 = (np.asarray(z, float) for z in (x0, v0, a0))

    def pos(self, t):
        return self.x0 + self.v0 * t + 0.5 * self.a0 * t * t

    def vel(self, t):
        return self.v0 + self.a0 * t


class Sim:
    """What the light-time code needs of a REBOUND simulation."""

    def __init__(self, tr):
        self.tr = tr
        self.t = None
        sim = self

        class P:
            @property
            def xyz(self):
                return list(sim.tr.pos(sim.t))

            @property
            def vxyz(self):
                return list(sim.tr.vel(sim.t))

        self.particles = [P()]

    def integrate_or_interpolate(self, t):
        self.t = t


def apparent(ast, obs, t):
    o = obs.pos(t)
    lt = 0.0
    for _ in range(60):
        r = ast.pos(t - lt) - o
        n = np.linalg.norm(r) / C
        if abs(n - lt) < 1e-17:
            break
        lt = n
    return r, lt


NAMES = ["ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range", "RangeRate", "RA", "RARate", "Dec", "DecRate", "sx", "sy", "sz",
         "svx", "svy", "svz", "ox", "oy", "oz", "ovx", "ovy", "ovz", "phase"]


def run(ck):
    from sorcha.ephemeris.simulation_driver import calculate_rates_and_geometry, EphemerisGeometryParameters, get_residual_vectors, get_vec
    from sorcha.ephemeris.simulation_geometry import integrate_light_time, ra_dec2vec, vec2ra_dec

    rng = ck.rng("geo")
    for i in range(ck.n(2200, 40000)):
        kind = rng.choice(["any", "pole", "wrap", "opp"], p=[0.62, 0.12, 0.12, 0.14])
        obs = Track(W.unit(*[float(z[0]) for z in W.rand_sky(rng, 1)]) * rng.uniform(0.98, 1.02), rng.normal(0, 0.01, 3), rng.normal(0, 3e-4, 3))
        sun = Track(rng.normal(0, 0.005, 3), rng.normal(0, 5e-6, 3), np.zeros(3))
        dist = float(10 ** rng.uniform(-2.5, 2))
        if kind == "pole":
            ra, dec = rng.uniform(0, 360), float(rng.choice([-1, 1])) * (90 - 10 ** rng.uniform(-6.5, 0))
        elif kind == "wrap":
            ra, dec = (rng.normal(0, 10 ** rng.uniform(-7, 0))) % 360, rng.uniform(-80, 80)
        else:
            ra, dec = (float(z[0]) for z in W.rand_sky(rng, 1))
        x = obs.pos(0) + W.unit(ra, dec) * dist
        v = rng.normal(0, 0.01, 3)
        if kind == "opp":
            sun = Track(rng.normal(0, 0.005, 3) if rng.integers(2) else np.zeros(3), np.zeros(3), np.zeros(3))
            d = obs.pos(0) - sun.pos(0)
            x = sun.pos(0) + d * float(rng.choice([1 + 10 ** rng.uniform(-1, 1.5), 0.5]))
            v = np.zeros(3)
            ck.ev("exact_opposition_or_conjunction")
        ast = Track(x, v, np.zeros(3) if kind == "opp" else rng.normal(0, 1e-4, 3))
        t = 0.0
        sim = Sim(ast)
        ctx = {"kind": kind, "object": [ast.x0, ast.v0, ast.a0], "observer": [obs.x0, obs.v0, obs.a0], "sun": [sun.x0, sun.v0]}
        ck.case([i, ctx], True, {"kind": kind, "ra": ra, "dec": dec, "distance_au": dist})
        rho, mag, lt, rast, vast = ck.must(integrate_light_time, sim, sim, t, obs.pos(t), _w=ctx, lt0=float(rng.choice([0.0, 0.01])), iter=3)
        r_true, lt_true = apparent(ast, obs, t)
        ck.ensure(abs(lt - lt_true) <= 1e-9 * lt_true + 2e-12 and np.linalg.norm(np.asarray(rho) - r_true) <= 1e-9 * np.linalg.norm(r_true) + 1e-10,
                  "light-time correction has not converged to the retarded position", lambda: {"ctx": ctx, "lt": lt, "want": lt_true, "rho": rho, "want_rho": r_true})
        mjd, jd = 60200.123 + i, 2460201.5
        p = pd.Series({"FieldID": 12345 + i, "fieldJD_TDB": jd})
        for nm, vec in (("r_sun", sun.pos(t)), ("v_sun", sun.vel(t)), ("r_obs", obs.pos(t)), ("v_obs", obs.vel(t))):
            for j, c in enumerate("xyz"):
                p[f"{nm}_{c}"] = vec[j]
        g = EphemerisGeometryParameters()
        g.obj_id, g.mjd_tai = f"obj{i}", mjd
        g.rho, g.rho_mag, g.r_ast, g.v_ast = rho, mag, rast, vast
        g.rho_hat = rho / mag
        out = ck.must(calculate_rates_and_geometry, p, g, _w=ctx)
        row = dict(zip(NAMES, out))
        wit = lambda: {"ctx": ctx, "row": row}
        if not ck.ensure(len(out) == 23 and row["ObjID"] == f"obj{i}" and row["FieldID"] == 12345 + i and row["fieldMJD_TAI"] == mjd and row["fieldJD_TDB"] == jd,
                         "an ephemeris row carries wrong identifiers or times", wit):
            continue
        num = np.array([float(z) for z in out[4:]])
        if not ck.ensure(np.all(np.isfinite(num)), "an ephemeris row has non-finite entries", wit):
            continue
        ck.ev("rows_judged")
        ck.ev("near_pole", abs(dec) > 89)
        ck.ev("near_ra_wrap", min(ra, 360 - ra) < 0.5)
        n = np.linalg.norm(r_true)
        u = r_true / n
        ck.ensure(abs(row["Range"] / W.AU_KM - n) <= 1e-8 * n, "range is not the distance to the retarded position", wit)
        ck.ensure(0 <= row["RA"] <= 360 and -90 <= row["Dec"] <= 90, "RA or Dec out of range", wit)
        # declination from arcsin is good to ~1e-8 rad near the pole
        ck.ensure(np.linalg.norm(W.unit(row["RA"], row["Dec"]) - u) <= 3e-8, "RA/Dec is not the apparent direction", wit)
        h = 1e-3 * min(1.0, n / 0.05)
        up, _ = apparent(ast, obs, t + h)
        um, _ = apparent(ast, obs, t - h)
        nrate = (np.linalg.norm(up) - np.linalg.norm(um)) / (2 * h)
        du = (up / np.linalg.norm(up) - um / np.linalg.norm(um)) / (2 * h)
        a, d = np.arctan2(u[1], u[0]), np.arcsin(np.clip(u[2], -1, 1))
        A = np.array([-np.sin(a), np.cos(a), 0.0])
        D = np.cross(u, A)
        rad = np.degrees(1.0)
        scale = np.linalg.norm(du) * rad
        vtot = np.linalg.norm(vast) + np.linalg.norm(obs.vel(t))
        # near the pole the split into the two components rotates by the rounding of the direction
        cosd = max(np.hypot(u[0], u[1]), 1e-12)
        tol = 2e-7 * (vtot / n * rad) + 5e-9 + scale * (1e-14 + 5e-11 / n) / cosd + (vtot / n) ** 3 * h * h * rad + 3e-16 / cosd ** 2 * scale
        ck.ev("rates_judged")
        ck.ensure(abs(row["RARate"] - du @ A * rad) <= tol, "RA rate (times cos Dec) is not the derivative of the apparent position",
                  lambda: {"ctx": ctx, "row": row, "numerical": du @ A * rad, "tolerance": tol})
        ck.ensure(abs(row["DecRate"] - du @ D * rad) <= tol, "Dec rate is not the derivative of the apparent position",
                  lambda: {"ctx": ctx, "row": row, "numerical": du @ D * rad, "tolerance": tol})
        ck.ensure(abs(row["RangeRate"] - nrate * W.AU_KM / 86400) <= (1.1 * vtot * vtot / 173.14 + 1e-7) * W.AU_KM / 86400 * (1 + vtot / n), "range rate is not the derivative of the range",
                  lambda: {"ctx": ctx, "row": row, "numerical": nrate * W.AU_KM / 86400})
        for pre, vec, unit, nm in (("s", ast.pos(t - lt_true) - sun.pos(t), W.AU_KM, "object-Sun vector"), ("o", obs.pos(t) - sun.pos(t), W.AU_KM, "observatory-Sun vector"),
                                   ("sv", ast.vel(t - lt_true) - sun.vel(t), W.AU_KM / 86400, "object-Sun velocity"), ("ov", obs.vel(t) - sun.vel(t), W.AU_KM / 86400, "observatory-Sun velocity")):
            got = np.array([row[pre + c] for c in "xyz"]) / unit
            ck.ensure(np.linalg.norm(got - vec) <= 1e-8 * np.linalg.norm(vec) + 2e-10, f"{nm} is wrong", lambda: {"ctx": ctx, "row": row, "want": vec * unit})
        s = ast.pos(t - lt_true) - sun.pos(t)
        ph = np.degrees(np.arctan2(np.linalg.norm(np.cross(s, r_true)), s @ r_true))
        ck.ensure(0 <= row["phase"] <= 180 and abs(row["phase"] - ph) <= 3e-6, "phase angle is not the angle Sun-object-observer", lambda: {"ctx": ctx, "row": row, "want": ph})


def helpers(ck):
    from sorcha.ephemeris.simulation_driver import get_residual_vectors
    from sorcha.ephemeris.simulation_geometry import ra_dec2vec, vec2ra_dec, get_hp_neighbors, ecliptic_to_equatorial, equatorial_to_ecliptic
    import healpy as hp

    rng = ck.rng("help")
    for i in range(ck.n(60, 600)):
        n = 200
        ra, dec = W.rand_sky(rng, n)
        u = W.unit(ra, dec)
        got = ck.must(ra_dec2vec, ra, dec)
        ck.ensure(np.abs(got - u).max() < 1e-14, "RA/Dec to unit vector is wrong", {"ra": ra[:3], "dec": dec[:3]})
        a, d = ck.must(vec2ra_dec, u.T)
        ck.ensure(np.all((a >= 0) & (a <= 360)) and np.abs(W.unit(a, d) - u).max() < 3e-8, "unit vector to RA/Dec is wrong", {"ra": ra[:3], "dec": dec[:3]})
        A, D = ck.must(get_residual_vectors, u[0])
        ck.ensure(np.allclose([A @ D, A @ u[0], D @ u[0], A @ A, D @ D, A[2]], [0, 0, 0, 1, 1, 0], atol=1e-6) and D[2] >= 0, "the local east/north frame is wrong", {"u": u[0], "A": A, "D": D})
        # pixels near a direction: every pixel holding a point within the radius
        nside = 2 ** int(rng.integers(3, 9))
        R = float(10 ** rng.uniform(-1.3, 0.7))
        nested = bool(rng.integers(2))
        pix = set(int(x) for x in ck.must(get_hp_neighbors, ra[0], dec[0], R, nside=nside, nested=nested))
        pa, s = rng.uniform(0, 360, n), R * np.sqrt(rng.uniform(0, 1, n))
        x, y = W.offset(np.full(n, ra[0]), np.full(n, dec[0]), s, pa)
        v = W.unit(x, y)
        need = set(int(q) for q in hp.vec2pix(nside, v[:, 0], v[:, 1], v[:, 2], nest=nested))
        ck.case([i, nside, R, nested], True, {"nside": nside, "radius": R})
        ck.ensure(need <= pix, "pixels within the search radius are missing", {"ra": ra[0], "dec": dec[0], "radius": R, "nside": nside, "missing": need - pix})
        far = hp.pix2vec(nside, np.array(sorted(pix)), nest=nested)
        sep = W.angsep(*W.radec(np.array(far).T), ra[0], dec[0])
        ck.ensure(sep.max() <= R + 4 * np.degrees(hp.nside2resol(nside)), "far-away pixels are returned", {"radius": R, "nside": nside, "max": sep.max()})
        eps = np.radians(84381.448 / 3600)
        w = rng.normal(0, 3, 3)
        eq = np.array([w[0], w[1] * np.cos(eps) - w[2] * np.sin(eps), w[1] * np.sin(eps) + w[2] * np.cos(eps)])
        ck.ensure(np.allclose(ck.must(ecliptic_to_equatorial, w), eq, atol=1e-13) and np.allclose(ck.must(equatorial_to_ecliptic, eq), w, atol=1e-13),
                  "ecliptic/equatorial rotation is wrong", {"v": w})


def parts():
    return [("helpers", helpers), ("run", run)]
