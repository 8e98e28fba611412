"""C20: the pixel pre-selection never hides an object."""
import numpy as np
import healpy as hp

from vlib.common import Check
from vlib import world as W
from checks.c19 import Sim, Track, apparent

JD0 = 2460400.5


def make():
    ck = Check(
        "C20",
        "Each case is one query (time, direction, radius) answered by the real PixelDict within a history of queries; analytic "
        "trajectories stand in for the integrator, so a brute-force geometric oracle knows every object inside the radius. "
        "Non-trivial = at least one object is inside the radius, or the query moved the interpolation window.",
        ["motion within one sub-interval is below nine tenths of a HEALPix pixel (an object must come within the pixels next to a sampled one)",
         "positions are known to the quadratic-interpolation bound; objects within that bound of the radius are not judged"],
    )
    ck.need("objects_inside_radius", 1500)
    ck.need("interpolations_judged", 5000)
    ck.need("window_steps_back", 100)
    ck.need("window_steps_forward", 100)
    ck.need("window_jumps", 100)
    ck.need("queries_near_pole", 40)
    ck.need("queries_across_ra0", 40)
    ck.need("object_in_pixel_of_its_own_only", 20)
    ck.need("histories_compared", 200)
    return ck


class Ephem:
    jd_ref = JD0


class Obs:
    def __init__(self, tr):
        self.tr = tr

    def barycentricObservatory(self, et, code, *a, **k):
        return self.tr.pos(et / 86400.0 + 2451545.0 - JD0) * W.AU_KM


def direction(tr, obs, t):
    r, _ = apparent(tr, obs, t)
    return r / np.linalg.norm(r)


def scenario(ck, rng, i):
    from sorcha.ephemeris.pixel_dict import PixelDict

    order = int(rng.choice([0, 2, 4, 5, 6, 7, 8, 10]))
    nside = 2 ** order
    resol = hp.nside2resol(nside)
    picket = float(rng.choice([1.0, 1.0, 0.5, 2.0, 0.25]))
    nsub = int(rng.choice([101, 101, 51, 301]))
    nested = bool(rng.integers(4) != 0)
    region = str(rng.choice(["any", "pole", "wrap"]))
    if region == "pole":
        ra0, dec0 = rng.uniform(0, 360), float(rng.choice([-1, 1])) * rng.uniform(87, 90)
    elif region == "wrap":
        ra0, dec0 = rng.normal(0, 1) % 360, rng.uniform(-60, 60)
    else:
        ra0, dec0 = (float(z[0]) for z in W.rand_sky(rng, 1))
    obs = Track(W.unit(*[float(z[0]) for z in W.rand_sky(rng, 1)]), rng.normal(0, 3e-3, 3), rng.normal(0, 1e-5, 3))
    span = float(rng.choice([3, 10, 40])) * picket
    # fastest apparent motion that the sub-intervals resolve
    wmax = min(0.9 * resol / (2 * picket / (nsub - 1)), np.radians(10.0) / picket)
    tracks, sims = {}, {}
    nobj = int(rng.choice([3, 12, 40]))
    spread = 10 ** rng.uniform(-1.5, 1.3)
    for j in range(nobj):
        d = float(10 ** rng.uniform(-0.7, 1.7))
        tj = rng.uniform(-span, span)
        u = W.unit(ra0, dec0) + np.radians(spread) * rng.normal(size=3)
        u /= np.linalg.norm(u)
        w = wmax * (10 ** rng.uniform(-3, 0) * 0.5 if rng.integers(2) else rng.uniform(0.6, 0.98))
        t = np.cross(u, rng.normal(size=3))
        t /= np.linalg.norm(t)
        # never faster than 0.05 au/day: such objects exist only very close to the observer
        v = obs.vel(tj) + min(d * w, 0.05) * t
        x = obs.pos(tj) + d * u
        # the object passes through x at time tj
        tr = Track(x - v * tj, v, np.zeros(3))
        k = f"{'K' if rng.integers(2) else ''}{j:04d}"
        tracks[k] = tr
        s = Sim(tr)
        sims[k] = {"sim": s, "ex": s}
    t_first = float(rng.uniform(-span, span))
    cfg = {"order": order, "picket": picket, "n_sub": nsub, "nested": nested, "region": region, "first": t_first, "span": span}

    def new():
        return ck.must(PixelDict, JD0 + t_first, sims, Ephem, "X05", Obs(obs), _w=cfg, picket_interval=picket, nside=nside, nested=nested, n_sub_intervals=nsub)

    # a history of query times: steps both ways, jumps, repeats, window edges
    m = ck.n(14, 30)
    times = [t_first]
    for _ in range(m):
        kind = rng.integers(6)
        last = times[-1]
        if kind == 0:
            t = last + picket * rng.uniform(0.4, 1.6)
        elif kind == 1:
            t = last - picket * rng.uniform(0.4, 1.6)
        elif kind == 2:
            t = rng.uniform(-span, span)
        elif kind == 3:
            t = last + picket * float(rng.normal(0, 0.2))
        elif kind == 4:
            t = t_first + picket * (float(rng.integers(-3, 4)) + float(rng.choice([0, 0.5, -0.5, 0.499, 0.501])))
        else:
            t = last
        times.append(float(t))
    queries = []
    keys = list(tracks)
    for t in times:
        k = keys[rng.integers(len(keys))]
        r = float(10 ** rng.uniform(-2.5, 0.8)) if order >= 4 else float(rng.uniform(0.05, 25))
        r = min(r, 60 * np.degrees(resol))
        u = direction(tracks[k], obs, t)
        off = np.radians(r) * np.sqrt(rng.uniform(0, 1.1))
        p = np.cross(u, rng.normal(size=3))
        p /= np.linalg.norm(p)
        c = u * np.cos(off) + p * np.sin(off)
        dec = float(np.degrees(np.arctan2(c[2], np.hypot(c[0], c[1]))))
        queries.append((t, float(np.degrees(np.arctan2(c[1], c[0])) % 360), dec, r))
    pd_ = new()
    answers = {}
    prev = t_first
    for qi, (t, ra, dec, r) in enumerate(queries):
        step = (t - prev) / picket
        ck.ev("window_steps_back", -1.5 < step < -0.5)
        ck.ev("window_steps_forward", 0.5 < step < 1.5)
        ck.ev("window_jumps", abs(step) > 1.5)
        ck.ev("queries_near_pole", 90 - abs(dec) < 1 + r)
        ck.ev("queries_across_ra0", min(ra, 360 - ra) * np.cos(np.radians(dec)) < r)
        prev = t
        jd = JD0 + t
        got = ck.must(pd_.get_designations, jd, ra, dec, r, _w=cfg)
        vec = ck.must(pd_.interpolate_unit_vectors, keys, jd, _w=cfg)
        c = W.unit(ra, dec)
        pts = {}
        inside = 0
        ok = ck.ensure(set(got) <= set(keys), "the pre-selection invented an object", {"cfg": cfg, "got": sorted(got)[:10]})
        for k in keys:
            u = direction(tracks[k], obs, t)
            # bound on the quadratic interpolation: third derivative of the direction
            h = picket
            us = np.array([direction(tracks[k], obs, t + h * z) for z in np.arange(-1.5, 1.51, 0.25)])
            m3 = max(float(np.linalg.norm(us[3:] - 3 * us[2:-1] + 3 * us[1:-2] - us[:-3], axis=1).max()) * 64,
                     float(np.linalg.norm(us[6:] - 3 * us[4:-2] + 3 * us[2:-4] - us[:-6], axis=1).max()) * 8)
            tol = 0.0642 * m3 * 1.5 + 2e-8
            v = np.asarray(vec[k], float)
            ck.ev("interpolations_judged")
            if m3 < 0.02 and not ck.ensure(v.shape == (3,) and np.linalg.norm(v - u) <= tol, "interpolated direction is off by more than quadratic interpolation allows",
                                           lambda: {"cfg": cfg, "query": qi, "times": times[: qi + 1], "object": k, "err": np.linalg.norm(v - u), "tol": tol}):
                ok = False
            sep = np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(u - c) / 2, 0, 1)))
            if sep < r - np.degrees(tol) and m3 < 0.02:
                inside += 1
                ck.ev("objects_inside_radius")
                if np.degrees(resol) * 0.3 > r:
                    ck.ev("object_in_pixel_of_its_own_only")
                ok &= ck.ensure(k in got, "an object inside the search radius is missing from the candidates",
                                lambda: {"cfg": cfg, "query": [t, ra, dec, r], "object": k, "separation_deg": sep, "history": times[: qi + 1]})
            pts[k] = v
        ck.case([i, qi, t, ra, dec, r], inside > 0 or abs(step) > 0.5, {"cfg": cfg, "query": [t, ra, dec, r], "inside": inside})
        answers[qi] = (pts, {k for k in got if np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(pts[k] / np.linalg.norm(pts[k]) - c) / 2, 0, 1))) < r - 1e-6})
        if not ok:
            return
    # same queries, another history: same answers (grid ties have two valid windows)
    pd2 = new()
    for qi in rng.permutation(len(queries)):
        t, ra, dec, r = queries[qi]
        frac = ((t - t_first) / picket) % 1.0
        if abs(frac - 0.5) < 1e-6:
            continue
        got = ck.must(pd2.get_designations, JD0 + t, ra, dec, r, _w=cfg)
        vec = ck.must(pd2.interpolate_unit_vectors, keys, JD0 + t, _w=cfg)
        c = W.unit(ra, dec)
        pts, ins = answers[qi]
        ck.ev("histories_compared")
        ok = ck.ensure(all(np.linalg.norm(np.asarray(vec[k]) - pts[k]) < 1e-8 for k in keys), "interpolated directions depend on the history of earlier queries",
                       lambda: {"cfg": cfg, "times": times, "query": int(qi)})
        ok &= ck.ensure({k for k in got if np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(pts[k] / np.linalg.norm(pts[k]) - c) / 2, 0, 1))) < r - 1e-6} == ins,
                        "objects found in a field depend on the history of earlier queries", lambda: {"cfg": cfg, "times": times, "query": int(qi)})
        if not ok:
            return


def run(ck):
    from vlib.common import SkipCase

    for i in range(ck.n(80, 700)):
        rng = ck.rng(i)
        try:
            scenario(ck, rng, i)
        except SkipCase:
            pass
        if ck.elapsed() > (300 if ck.quick else 800):
            break


def parts():
    return [("run", run)]
