"""C34: auxiliary files in the cache: bootstrap and first runs, against a server on the loopback network."""
import contextlib
import gzip
import io
import json
import os
import re
import shutil
import subprocess
import sys
import threading
from argparse import Namespace as NS
from dataclasses import dataclass, make_dataclass
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

import numpy as np

from vlib.common import Check, SkipCase
from vlib import world as W
from vlib import kernels as K

ONE = ["planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds",
       "observatory_codes_compressed", "orientation_constants"]
ORDER = ["leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision"]


def make():
    ck = Check(
        "C34",
        "Each case is one call of the real bootstrap command, or of the generator's loading of its files, on a cache directory in a drawn state (files missing, present, "
        "stale; meta kernel missing or stale) against a server on the loopback network that records every request and may fail; the directory afterwards is compared with what the server has. "
        "Non-trivial = at least one file had to be fetched, or must not be.",
        ["waits between repeated requests are skipped", "which files are re-fetched by force while the server fails is not judged, only that nothing incomplete is left",
         "a process killed while pooch unpacks the observatory codes is not judged"],
    )
    for k, n in {"bootstraps": 60, "files_fetched": 200, "files_kept": 100, "forced": 20, "forced_from_incomplete": 8, "failing_servers": 15, "recovered": 10, "requests": 300, "meta_kernels_read": 40,
                 "configured_runs": 6, "names_with_directory": 2, "second_loads": 6, "concurrent_loads": 12}.items():
        ck.need(k, n)
    return ck


class Server:
    """path -> bytes; `bad` path -> (kind, how often)."""

    def __init__(self):
        self.files, self.bad, self.log = {}, {}, []
        self.lock = threading.Lock()
        srv = self

        class H(BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                with srv.lock:
                    srv.log.append(self.path)
                    kind, left = srv.bad.get(self.path, (None, 0))
                    if left <= 0:
                        kind = None
                    elif kind:
                        srv.bad[self.path] = (kind, left - 1)
                b = srv.files.get(self.path)
                if b is None or kind in ("404", "500", "503"):
                    self.send_error(int(kind or 404))
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                if kind == "cut":
                    self.wfile.write(b[: len(b) // 2])
                    self.wfile.flush()
                    self.close_connection = True
                    return
                self.wfile.write(b)

        self.http = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.http.daemon_threads = True
        threading.Thread(target=self.http.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
        self.base = "http://127.0.0.1:%d" % self.http.server_address[1]

    def take(self):
        with self.lock:
            r, self.log = self.log, []
        return r

    def close(self):
        self.http.shutdown()
        self.http.server_close()


def local(base):
    """The defaults of the real class with the addresses of the server."""
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    cls = make_dataclass("auxiliaryConfigs", [(k + "_url", str, f"{base}/{k}") for k in ONE], bases=(auxiliaryConfigs,))
    return cls


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def meta(b, d):
    """Kernel paths of a meta kernel, or None if it is not whole."""
    s = b.decode()
    m = re.search(r"\\begindata(.*)\\begintext", s, re.S)
    if not m:
        return None
    body = m.group(1)
    v = re.search(r"PATH_VALUES\s*=\s*\((.*?)\)\s*\n\s*\n", body, re.S)
    k = re.search(r"KERNELS_TO_LOAD\s*=\s*\((.*?)\n\s*\)", body, re.S)
    if not v or not k:
        return None
    root = "".join(p[:-1] if p.endswith("+") else p for p in re.findall(r"'([^']*)'", v.group(1)))
    return [x.replace("$A", root) for x in re.findall(r"'([^']*)'", k.group(1))]


@contextlib.contextmanager
def patched(cls):
    import sorcha.utilities.sorchaConfigs as C
    import pooch.core

    class T:
        @staticmethod
        def sleep(x):
            pass

        def __getattr__(self, n):
            import time
            return getattr(time, n)

    keep, t = C.auxiliaryConfigs, pooch.core.time
    C.auxiliaryConfigs, pooch.core.time = cls, T()
    try:
        yield
    finally:
        C.auxiliaryConfigs, pooch.core.time = keep, t


def bootstrap(cache, force):
    from sorcha_cmdline.bootstrap import execute

    o = io.StringIO()
    err = None
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
        try:
            execute(NS(cache=cache, force=force))
        except (Exception, SystemExit) as e:  # noqa
            err = e
    return o.getvalue(), err


def part_bootstrap(ck):
    import logging

    logging.disable(logging.CRITICAL)
    srv = Server()
    cls = local(srv.base)
    a = cls()
    names = {k: getattr(a, k) for k in ONE}
    try:
        for i in range(ck.n(75, 700)):
            case(ck, ck.rng("b", i), i, srv, cls, a, names)
    finally:
        srv.close()


def case(ck, rng, i, srv, cls, a, names):
    d = os.path.join(W.tmpdir(), "aux")
    if rng.random() < 0.3:
        d = os.path.join(d, "deep folder " + "x" * int(rng.integers(0, 90)))
    codes = json.dumps({"X05": {"Longitude": float(rng.uniform(0, 360)), "cos": 0.8, "sin": -0.5, "Name": "é"}}).encode()
    srv.files = {"/" + k: rng.bytes(int(rng.choice([1, 300, 70000]))) for k in ONE}
    srv.files["/observatory_codes_compressed"] = gzip.compress(codes, mtime=0)
    want = {names[k]: srv.files["/" + k] for k in ONE}
    want[a.observatory_codes] = codes
    # the state of the cache
    state, ctx = {}, {"case": i, "dir": d}
    full = rng.random()
    for n in list(want) + [a.meta_kernel]:
        r = rng.random()
        kind = "absent" if full < 0.25 else "stale" if full < 0.45 else ["absent", "stale", "same"][int(3 * r)]
        if kind == "stale" or (kind == "same" and n == a.meta_kernel):
            state[n] = b"old " + rng.bytes(20)
            if n == names["observatory_codes_compressed"]:
                state[n] = gzip.compress(state[n], mtime=0)
        elif kind == "same":
            state[n] = want[n]
    foreign = {"notes.txt": b"mine", "de430.bsp": b"another", "sub/x.bpc": b"z"} if rng.random() < 0.5 else {}
    if state or foreign or rng.integers(2):
        for n, b in {**state, **foreign}.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
    if os.path.isdir(d) and rng.random() < 0.2:  # links whose target is gone are files which are not there
        for n in [str(x) for x in rng.permutation([n for n in want if n != a.observatory_codes])[:2]]:
            if state.pop(n, None) is not None:
                os.remove(os.path.join(d, n))
            os.symlink(os.path.join(W.tmpdir(), "gone", n), os.path.join(d, n))
            ck.ev("dangling_links")
    force = bool(rng.random() < 0.4)
    srv.bad = {}
    for k in rng.permutation(ONE)[: int(rng.choice([0, 0, 1, 2, 9]))]:
        kind = str(rng.choice(["404", "500", "cut"]))
        srv.bad["/" + str(k)] = (kind, int(rng.choice([1, 3, 10 ** 6])))
    lasting = {p[1:] for p, (x, n) in srv.bad.items() if n > 100}
    ctx.update(present=sorted(state), force=force, bad={p: list(x) for p, x in srv.bad.items()})
    srv.take()
    with patched(cls):
        text, err = bootstrap(d, force)
    req = [p[1:] for p in srv.take()]
    after = snapshot(d) if os.path.isdir(d) else {}
    ck.ev("bootstraps")
    ck.ev("requests", len(req))
    ck.ev("forced", force)
    allthere = all(n in state for n in list(want) + [a.meta_kernel])
    ck.ev("forced_from_incomplete", force and not allthere)
    ck.ev("failing_servers", bool(lasting))
    ck.case([i, ctx["present"], force, sorted(srv.bad)], True, ctx)
    ctx.update(requests=sorted(set(req)), error=repr(err)[:300] if err else None)
    judge(ck, ctx, d, a, names, want, state, foreign, force, lasting, req, after, text, err, allthere)
    if lasting:
        # the server is well again
        srv.bad = {}
        before = {n: b for n, b in after.items()}
        with patched(cls):
            text, err = bootstrap(d, False)
        req = [p[1:] for p in srv.take()]
        after = snapshot(d)
        ck.ev("recovered")
        ctx = dict(ctx, again=True, present=sorted(before), error=repr(err)[:300] if err else None, requests=sorted(set(req)))
        state = {n: b for n, b in before.items() if n in want or n == a.meta_kernel}
        judge(ck, ctx, d, a, names, want, state, foreign, False, set(), req, after, text, err, all(n in state for n in list(want) + [a.meta_kernel]))
    shutil.rmtree(os.path.join(W.tmpdir(), "aux"), ignore_errors=True)


def judge(ck, ctx, d, a, names, want, state, foreign, force, lasting, req, after, text, err, allthere):
    gz = names["observatory_codes_compressed"]
    for n, b in foreign.items():
        ck.ensure(after.get(n) == b, "a file that does not belong to the auxiliary files was changed", {"ctx": ctx, "file": n})
    extra = set(after) - set(want) - {a.meta_kernel} - set(foreign)
    ck.ensure(not extra, "files are left behind in the cache", {"ctx": ctx, "files": sorted(extra)[:5]})
    missing = [n for n in list(want) + [a.meta_kernel] if n not in after]
    ck.ensure(not (missing and "All expected files were found" in text.rsplit("Checking cache after", 1)[-1]), "missing files are reported as found", {"ctx": ctx, "missing": missing})
    if not lasting:
        ck.ensure(err is None, "bootstrap failed although the server has all files", ctx)
        ck.ensure(not missing, "files are missing after bootstrap", {"ctx": ctx, "missing": missing})
    for k, n in list(names.items()) + [("observatory_codes", a.observatory_codes)]:
        key = "observatory_codes_compressed" if k == "observatory_codes" else k
        got, old, new = after.get(n), state.get(n), want[n]
        if got is None:
            ck.ensure(force or old is None, "bootstrap removed a file without force", {"ctx": ctx, "file": n})
            continue
        if force and not lasting:
            ck.ev("files_fetched")
            ck.ensure(got == new, "after bootstrap with force a file is not the server's", {"ctx": ctx, "file": n, "old": got == old})
        elif old is not None and not force:
            # unpacked again if the packed file had to be fetched
            ck.ev("files_kept")
            ck.ensure(got == old or (k == "observatory_codes" and gz not in state and got == new), "an existing file was changed without force", {"ctx": ctx, "file": n})
            if k != "observatory_codes":
                ck.ensure(key not in req, "an existing file was requested from the server", {"ctx": ctx, "file": n})
        else:
            ck.ev("files_fetched")
            # what is unpacked is what the packed file in the cache has
            ok = got == new or (old is not None and got == old)
            if k == "observatory_codes" and gz in state and not ok:
                try:
                    ok = got == gzip.decompress(state[gz])
                except OSError:
                    ok = True
            ck.ensure(ok, "a file in the cache is not what the server sent", {"ctx": ctx, "file": n, "bytes": len(got), "of": len(new)})
    if not force and allthere:
        ck.ensure(not req, "a complete cache made requests", ctx)
    b = after.get(a.meta_kernel)
    if b is not None and b != state.get(a.meta_kernel):
        ck.ev("meta_kernels_read")
        m = meta(b, d)
        ck.ensure(m == [os.path.join(os.path.abspath(d), getattr(a, k)) for k in ORDER], "the meta kernel in the cache is not complete", {"ctx": ctx, "text": b.decode("latin1")[-300:], "read": m})
    elif not lasting and not (allthere and not force) and meta(b or b"", d) is None:
        ck.violation("the meta kernel was not made anew", {"ctx": ctx})


CHILD = """
import sys, json, time, os
import numpy as np
from types import SimpleNamespace as NS
import pooch
cache, delay, names = json.loads(sys.argv[1])
class T:
    def __getattr__(s, n): return getattr(time, n)
    def sleep(s, x): pass
import pooch.core
pooch.core.time = T()
f0 = pooch.Pooch.fetch
def fetch(s, *a, **k):
    time.sleep(delay)
    r = f0(s, *a, **k)
    time.sleep(delay)
    return r
pooch.Pooch.fetch = fetch
from sorcha.ephemeris.simulation_setup import furnish_spiceypy, create_assist_ephemeris
from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
import spiceypy as spice
a = auxiliaryConfigs(**names)
args = NS(ar_data_file_path=cache)
sys.stdin.readline()
furnish_spiceypy(args, a)
m = spice.pxform("ITRF93", "J2000", 9000.25 * 86400.0)
p, _ = spice.spkpos("EARTH", 9000.25 * 86400.0, "J2000", "NONE", "SSB")
print(json.dumps([np.asarray(m).tolist(), np.asarray(p).tolist(), int(spice.ktotal("ALL"))]))
"""


def part_runs(ck):
    """The generator's own loading of the files, from the addresses of a configuration file."""
    import spiceypy as spice
    from checks.c21 import data_dir
    from sorcha.ephemeris.simulation_setup import create_assist_ephemeris, furnish_spiceypy
    from sorcha.ephemeris.simulation_parsing import Observatory
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    src = data_dir()
    srv = Server()
    real = auxiliaryConfigs()
    t = 9000.25
    try:
        for i in range(ck.n(7, 40)):
            rng = ck.rng("r", i)
            srv.files, srv.bad = {}, {}
            names = {}
            for k in ONE:
                new = f"{k}_{i}" + os.path.splitext(getattr(real, k))[1] if rng.random() < 0.6 else getattr(real, k)
                f = os.path.join(src, getattr(real, k))
                if k == "observatory_codes_compressed":
                    new = "codes%d.json.gz" % i
                    b = gzip.compress(open(os.path.join(src, real.observatory_codes), "rb").read(), mtime=0)
                else:
                    b = open(f, "rb").read()
                names[k] = new
                if new != getattr(real, k):
                    if i % 2 and rng.random() < 0.4:
                        names[k] = f"{str(rng.choice(['spice', 'spice/new']))}/{new}"
                        ck.ev("names_with_directory")
                    names[k + "_url"] = f"{srv.base}/there/{k}"
                    srv.files[f"/there/{k}"] = b
            names["observatory_codes"] = "codes%d.json" % i
            if rng.integers(2):
                names["meta_kernel"] = "my_meta.txt"
            cache = os.path.join(W.tmpdir(), "run%d" % i)
            os.makedirs(cache)
            for k in ONE:
                if k + "_url" not in names:
                    os.link(os.path.join(src, getattr(real, k)), os.path.join(cache, names[k]))
            ctx = {"case": i, "names": names}
            if rng.integers(2):
                srv.bad = {p: (str(rng.choice(["500", "cut", "404"])), 2) for p in srv.files if rng.random() < 0.4}
            form = str(rng.choice(["plain", "slash", "dots", "relative"]))
            args = NS(ar_data_file_path={"plain": cache, "slash": cache + "/", "dots": os.path.join(cache, "..", os.path.basename(cache)), "relative": os.path.relpath(cache)}[form])
            srv.take()
            try:
                with patched(auxiliaryConfigs):
                    a = ck.must(auxiliaryConfigs, **names, _w=ctx)
                    for rep in range(2):
                        spice.kclear()
                        ephem, gs, gt = ck.must(create_assist_ephemeris, args, a, _w=ctx)
                        ck.must(furnish_spiceypy, args, a, _w=ctx)
                        o = ck.must(Observatory, args, a, _w=ctx)
                        req = srv.take()
                        ck.ev("requests", len(req))
                        ck.ev("configured_runs" if rep == 0 else "second_loads")
                        ck.case(["run", i, rep], True, ctx)
                        if rep == 0:
                            ck.ensure(set(req) == set(srv.files), "files were not fetched from the configured addresses", {"ctx": ctx, "requests": sorted(set(req))})
                        else:
                            ck.ensure(not req, "files in the cache were fetched again", {"ctx": ctx, "requests": req})
                        m = np.asarray(ck.must(spice.pxform, "ITRF93", "J2000", t * 86400.0))
                        p, _ = ck.must(spice.spkpos, "EARTH", t * 86400.0, "J2000", "NONE", "SSB")
                        ck.ensure(np.abs(m - K.earth_rotation(t)).max() < 1e-9 and np.linalg.norm(np.asarray(p) / K.AU - K.body(399, t)) < 1e-11, "the kernels loaded are not the configured ones", ctx)
                        ck.ensure(abs(gs - K.GM_AU["GMS"]) < 1e-12, "the planetary ephemeris is not the configured one", ctx)
                        ck.ensure("X05" in o.ObservatoryXYZ or len(o.ObservatoryXYZ) > 0, "no observatory was read", ctx)
                        del ephem
            except SkipCase:
                pass
            except spice.utils.exceptions.SpiceyError as e:
                ck.violation("kernels are not usable after loading them: " + str(e)[-200:], ctx)
            finally:
                spice.kclear()
                shutil.rmtree(cache)
        for i in range(ck.n(2, 10)):
            together(ck, ck.rng("t", i), i, srv, real, src)
    finally:
        srv.close()


def together(ck, rng, i, srv, real, src):
    """Several first runs at once on one cache: each has to see complete files."""
    names, srv.bad, srv.files = {}, {}, {}
    for k in ONE:
        if k in ORDER:
            names[k] = f"t{i}_{k}" + os.path.splitext(getattr(real, k))[1]
            names[k + "_url"] = f"{srv.base}/t/{k}"
            srv.files[f"/t/{k}"] = open(os.path.join(src, getattr(real, k)), "rb").read()
    cache = os.path.join(W.tmpdir(), "tog%d" % i)
    os.makedirs(cache)
    n = 8
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", CHILD, json.dumps([cache, float(rng.choice([0, 0.01, 0.03])) * (0.5 + j / n), names])], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True) for j in range(n)]
    import time

    time.sleep(6)
    for p in ps:
        p.stdin.write("\n")
        p.stdin.flush()
        time.sleep(float(rng.choice([0, 0.02, 0.1])))
    for j, p in enumerate(ps):
        o, e = p.communicate(timeout=200)
        ctx = {"process": j, "of": n, "round": i, "error": e[-400:]}
        ck.ev("concurrent_loads")
        ck.case(["together", i, j], True, ctx)
        if ck.ensure(p.returncode == 0, "a run that starts at the same time as others on one cache fails", ctx):
            m, q, tot = json.loads(o.strip().splitlines()[-1])
            ck.ensure(tot == 7 and np.abs(np.asarray(m) - K.earth_rotation(9000.25)).max() < 1e-9 and np.linalg.norm(np.asarray(q) / K.AU - K.body(399, 9000.25)) < 1e-11,
                      "a run that starts at the same time as others loads incomplete kernels", dict(ctx, kernels=tot))
    shutil.rmtree(cache)


def parts():
    return [("bootstrap", part_bootstrap), ("runs", part_runs)]
