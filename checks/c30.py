"""C30: existing results are never overwritten or mixed silently."""
import argparse
import glob
import hashlib
import logging
import os
import shutil
import sys

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W

EXT = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}
STEMS = ["run", "SSPPOutput", "run.v2", "run[1]", "run*", "r?n", "a b", "run-1", "[ab]", "éa", "run.", "out_[!x]", "{a,b}", "run~", "$HOME", "run.csv", "%d"]
DIRS = ["o", "o.d", "o[1]", "o*", "o ?", "o,é", "[o]"]


def make():
    ck = Check(
        "C30",
        "Each case is one directory with generated files in it (results of this run in the same or another format, results of other runs whose names share a "
        "prefix or match as a glob pattern, inputs, subdirectories, links) and one real run of the command-line entry point with or without force, the directory "
        "listed with contents and modification times before and after; a quarter of the runs are processes of their own. Or one copy command. "
        "Non-trivial = at least one file existed before.",
        ["whether a run without force is refused because of a file of its own stem in another format, or with several extensions, is not judged, only that such files stay as they are",
         "with force, files of this run's stem in other formats may be deleted but not changed"],
    )
    for k, n in {"refused_existing_output": 15, "refused_existing_stats": 8, "refused_existing_ephemeris": 4, "forced_runs": 25, "fresh_runs": 5, "decoys_kept": 300,
                 "special_names": 35, "same_as_clean": 30, "colliding_names": 8, "inputs_among_outputs": 8, "own_process": 8, "copy_refused": 12, "copy_forced": 8,
                 "copy_fresh": 8, "links": 3, "failed_runs": 5}.items():
        ck.need(k, n)
    return ck


def state(d):
    """Path -> (kind, digest, mtime) of everything below d, other than logs of the run itself."""
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn + dn:
            p = os.path.join(dp, f)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p), 0)
            elif os.path.isdir(p):
                out[r] = ("dir", "", 0)
            else:
                out[r] = ("file", hashlib.sha256(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out


def islog(name, stem):
    return os.path.basename(name).startswith(stem + "-") and name.endswith((".log", ".err"))


def ns(w, inip, outdir, **k):
    f = w.files
    a = dict(p=f["paramsinput"], ob=f["orbinfile"], er=f.get("input_ephemeris_file"), ew=None, ar=None, cp=f.get("complex_physical_parameters"), o=outdir, c=inip,
             pd=f["pointing_database"], t="out", st=None, s=w.survey, l=True, f=False, vd=f.get("visits_database"))
    a.update(k)
    return argparse.Namespace(**a)


def execute(a, seed):
    """The real entry point; returns the exit status (0 for a normal end)."""
    from sorcha_cmdline.run import execute as ex

    root = logging.getLogger()
    keep = list(root.handlers)
    os.environ["SORCHA_SEED"] = str(seed)
    try:
        ex(a)
        return 0
    except SystemExit as e:
        return e.code
    finally:
        os.environ.pop("SORCHA_SEED", None)
        for h in list(root.handlers):
            if h not in keep:
                root.removeHandler(h)
                h.close()


def own_process(w, inip, a, outdir, seed):
    x = []
    if a.get("f"):
        x.append("-f")
    r = P.cli(w, outdir, seed=seed, ini=inip, keep=True, stem=a.get("t", "out"), stats=a.get("st"), ew=a.get("ew"), ar=a.get("ar"), extra=x)
    return 0 if r.returncode == 0 else r.stderr[-300:] or r.returncode


def frames(d, stem, fmt, stats):
    o = P.read_output(d, stem, fmt)
    s = None
    p = os.path.join(d, (stats or "") + ".csv")
    if stats and os.path.exists(p):
        s = pd.read_csv(p, dtype={"ObjID": str}, keep_default_na=False, na_values=[""])
    return o, s


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    k = [c for c in ("ObjID", "FieldID", "fieldMJD_TAI", "optFilter") if c in a.columns]
    a, b = (x.sort_values(k).reset_index(drop=True) for x in (a, b))
    return all((a[c].astype(str) == b[c].astype(str)).all() or (pd.api.types.is_numeric_dtype(a[c]) and pd.api.types.is_numeric_dtype(b[c]) and np.allclose(a[c], b[c], rtol=1e-12, equal_nan=True)) for c in a.columns)


def blob(rng):
    return bytes(rng.integers(32, 127, int(rng.integers(0, 300))).astype("u1"))


def fill(rng, d, rel):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p):
        return False
    with open(p, "wb") as f:
        f.write(blob(rng))
    os.utime(p, ns=(10 ** 18, 10 ** 18 + int(rng.integers(10 ** 9))))
    return True


def decoys(rng, stem):
    """Names of files of other runs. Second entry: the present run would be in the way (not judged whether it is refused without force)."""
    e = [".csv", ".db", ".h5", ".txt"]
    c = [stem + "2", stem + "-old", "x" + stem, stem.upper() + "_", stem[:-1] if len(stem) > 1 else stem + "q", stem + "_stats", stem + " ", os.path.join(stem + "_d", stem),
         os.path.join("sub", stem), stem + "*", "[" + stem + "]", stem.replace("[", "").replace("]", "") + "0"]
    # what the name would match as a glob pattern
    if any(x in stem for x in "*?["):
        c += [stem.replace("[1]", "1").replace("*", "zz").replace("?", "u").replace("[ab]", "a").replace("[!x]", "y")] * 3
    if "{" in stem or "$" in stem or "~" in stem or "%" in stem:
        c += ["a", os.path.expandvars(stem).strip("/").replace("/", "_")]
    n = [(x + str(rng.choice(e)), False) for x in c]
    n += [(stem + ".v2" + str(rng.choice(e)), True), (stem + ".2024.01.csv", True), (stem + "-2024-01-01-00-00-00-p1-sorcha.log", False), (stem + "-2024-01-01-00-00-00-p1-sorcha.err", False),
          (stem, False), (stem + "csv", False), (stem + "_csv.bak", False)]
    own = {stem + x for x in (".csv", ".db", ".h5")}
    return [(x, y) for x, y in n if x not in own and x.strip()]


def strays(stem, x):
    """Belongs to this run's stem with a single extension (may go with force)."""
    return x.startswith(stem + ".") and "." not in x[len(stem) + 1:] and os.sep not in x[len(stem):]


def part_runs(ck):
    rng = ck.rng("runs")
    for i in range(ck.n(84, 700)):
        w = P.make(rng, n=5, groups=1, nights=3, pad_vis=4, survey="DES" if i % 9 == 0 else "rubin_sim")
        d = W.tmpdir()
        try:
            one(ck, rng, w, d, i)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ck, rng, w, d, i):
    P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
    stem = str(rng.choice(STEMS)) if i % 4 else "run"
    dn = str(rng.choice(DIRS)) if i % 3 == 0 else "o"
    out = os.path.join(d, dn)
    clean = os.path.join(d, "clean")
    os.makedirs(out)
    os.makedirs(clean)
    fmt = str(rng.choice(["csv", "sqlite3", "hdf5"]))
    stats = [None, "tally", stem + "_stats", "st[1]", stem + ".stats"][int(rng.integers(5))]
    inip = W.write_ini(P.sections(w, OUTPUT={"output_format": fmt}, INPUT={"size_serial_chunk": "2"}), os.path.join(d, "c.ini"))
    seed = int(rng.integers(1, 10 ** 6))
    own = {"output": stem + EXT[fmt]}
    if stats:
        own["stats"] = stats + ".csv"
    force = bool(rng.random() < 0.36)
    sit = ["output", "stats", "both", "none", "none", "other", "output"][int(rng.integers(7))]
    if sit == "stats" and not stats:
        sit = "output"
    if force and sit == "none":
        sit = "output"
    ctx = {"case": i, "stem": stem, "dir": dn, "format": fmt, "stats": stats, "force": force, "present": sit, "survey": w.survey}
    ambiguous = False
    present = [own[k] for k in own if sit in (k, "both")]
    for r in present:
        if rng.random() < 0.2:  # a link to a file elsewhere
            os.makedirs(os.path.join(d, "elsewhere"), exist_ok=True)
            t = os.path.join(d, "elsewhere", "precious")
            if not os.path.exists(t):
                open(t, "wb").write(b"precious")
            if rng.random() < 0.3:
                os.remove(t)  # dangling: writing through it would create a file elsewhere
            os.symlink(t, os.path.join(out, r))
            ck.ev("links")
        else:
            fill(rng, out, r)
    calm = sit == "none" and rng.random() < 0.7
    if sit == "other" or not calm and rng.random() < 0.2:
        o = stem + EXT[str(rng.choice([f for f in EXT if f != fmt]))]
        if o not in own.values() and fill(rng, out, o):
            ambiguous = True
    dec = [x for x in decoys(rng, stem) if x[0] not in own.values()]
    idx = rng.permutation(len(dec))[: int(rng.integers(3, len(dec)))]
    for k in idx:
        x, amb = dec[k]
        if calm and amb or strays(stem, x) or (stats and x.startswith(stats + ".")):
            continue
        try:
            if fill(rng, out, x):
                ambiguous = ambiguous or amb
        except OSError:
            pass
    # clean run for comparison
    code = execute(ns(w, inip, clean, t="out", st="tally" if stats else None), seed)
    if code != 0:
        ck.violation("a run into an empty directory does not end normally", {"ctx": ctx, "exit": str(code)[:300]}, "clean run")
    refo, refs = frames(clean, "out", fmt, "tally" if stats else None)
    before, outside = state(out), state(os.path.join(d, "in"))
    far = state(os.path.join(d, "elsewhere"))
    if set(stem) & set("[]*?{}$~%.") or set(dn) & set("[]*?"):
        ck.ev("special_names")
    a = {"t": stem, "st": stats, "f": force}
    if i % 8 == 0:
        ck.ev("own_process")
        code = own_process(w, inip, a, out, seed)
    else:
        code = execute(ns(w, inip, out, **a), seed)
    after = state(out)
    ctx["exit"] = str(code)[:200]
    ck.case(ctx, bool(before), ctx)
    ck.ensure(state(os.path.join(d, "in")) == outside, "the run changed its input files", {"ctx": ctx}, "inputs changed")
    ck.ensure(state(os.path.join(d, "elsewhere")) == far, "the run changed a file outside the output directory", {"ctx": ctx}, "outside")
    mine = set(own.values())
    for r, s in before.items():
        if r in mine and force:
            continue
        if s[0] == "dir":
            ck.ensure(after.get(r, ("",))[0] == "dir", "a directory has vanished", {"ctx": ctx, "name": r}, "directory")
            continue
        if force and strays(stem, r) and r not in after:
            continue
        if after.get(r) != s:
            ck.violation("a file which is not to be replaced was " + ("changed" if r in after else "deleted"), {"ctx": ctx, "file": r, "before": s, "after": after.get(r)},
                         "own without force" if r in mine else "other file")
        ck.ev("decoys_kept")
    new = {r for r in after if r not in before and not islog(r, stem)}
    if not force and present:
        ck.ensure(code != 0, "a run over existing results was not refused", {"ctx": ctx}, "not refused")
        ck.ensure(not new, "a refused run wrote files", {"ctx": ctx, "files": sorted(new)}, "refused but wrote")
        for k in own:
            if own[k] in present:
                ck.ev("refused_existing_" + k)
        return
    if code != 0:
        if not force and ambiguous:
            ck.ensure(not new, "a refused run wrote files", {"ctx": ctx, "files": sorted(new)}, "refused but wrote")
            return
        ck.violation("a run which overwrites nothing (or with force) was refused", {"ctx": ctx, "files": sorted(before)}, "refused needlessly")
        return
    ck.ev("forced_runs" if force else "fresh_runs")
    extra = new - mine
    ck.ensure(not extra, "the run wrote files under other names", {"ctx": ctx, "files": sorted(extra)}, "other names")
    o, s = frames(out, stem, fmt, stats)
    ck.ensure(equal(o, refo), "the results differ from those of the same run in an empty directory",
              {"ctx": ctx, "rows": [None if x is None else len(x) for x in (o, refo)]}, "mixed results")
    ck.ensure(equal(s, refs), "the statistics differ from those of the same run in an empty directory",
              {"ctx": ctx, "rows": [None if x is None else len(x) for x in (s, refs)]}, "mixed statistics")
    if refo is not None:
        ck.ev("same_as_clean")


def part_hostile(ck):
    """Outputs which name each other or inputs; runs which fail after the check; written ephemerides."""
    rng = ck.rng("hostile")
    for i in range(ck.n(30, 300)):
        w = P.make(rng, n=4, groups=1, nights=2, pad_vis=4)
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            hostile(ck, rng, w, d, i)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def hostile(ck, rng, w, d, i):
    out = os.path.join(d, "o")
    os.makedirs(out)
    sec = P.sections(w, OUTPUT={"output_format": "csv"})
    kind = i % 4
    seed = int(rng.integers(1, 10 ** 6))
    if kind == 0:  # output and statistics in one file
        st = ["res", "./res", "x/../res"][int(rng.integers(3))]
        os.makedirs(os.path.join(out, "x"))
        inip = W.write_ini(sec, os.path.join(d, "c.ini"))
        ctx = {"case": "same name", "stats": st, "force": bool(rng.random() < 0.5)}
        code = execute(ns(w, inip, out, t="res", st=st, f=ctx["force"]), seed)
        ck.case([ctx, i], True, ctx)
        ck.ev("colliding_names")
        ck.ensure(code != 0, "output and statistics were written into the same file", ctx, "mixed files")
        left = [r for r in state(out) if not islog(r, "res") and r != "x"]
        ck.ensure(not left, "a refused run wrote files", {"ctx": ctx, "files": left}, "refused but wrote")
    elif kind == 1:  # the inputs lie in the output directory under the output's name
        key = ["orbinfile", "paramsinput", "pointing_database", "input_ephemeris_file"][int(rng.integers(4))]
        p = os.path.join(out, "res" + [".csv", ".db", ".txt"][int(rng.integers(3))])
        if rng.random() < 0.5:
            shutil.copy(w.files[key], p)
        else:
            os.link(w.files[key], p)
        asfile = dict(w.files)
        asfile[key] = p if rng.random() < 0.7 else os.path.join(out, "..", "o", os.path.basename(p))
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
        old, w.files = w.files, asfile
        inip = W.write_ini(sec, os.path.join(d, "c.ini"))
        st = "tally"
        a = ns(w, inip, out, t="res", st=st, f=True)
        role = int(rng.integers(3))
        if role == 1 and p.endswith(".csv"):
            a.t, a.st = "other", "res"
        if role == 2:
            a.t, a.ew = "other", "res"
        code = execute(a, seed)
        w.files = old
        ctx = {"case": "input among outputs", "input": key, "file": os.path.basename(p), "stem": a.t, "stats": a.st, "ew": a.ew, "exit": str(code)[:200]}
        ck.case([ctx, i], True, ctx)
        ck.ev("inputs_among_outputs")
        ok = os.path.exists(p) and hashlib.sha256(open(p, "rb").read()).hexdigest() == h
        ck.ensure(ok, "force deleted or changed an input file of the run", ctx, "input deleted")
    elif kind == 2:  # an existing ephemeris or result with the run failing later on
        inip = W.write_ini(sec, os.path.join(d, "c.ini"))
        what = int(rng.integers(2))
        nm = ["eph", "eph.v1", "e[1]"][int(rng.integers(3))]
        f = nm + str(rng.choice([".csv", ".h5"]))
        fill(rng, out, f)
        fill(rng, out, nm + "2.csv")
        fill(rng, out, nm.replace("[1]", "1") + "_.csv")
        if "[" in nm:
            fill(rng, out, "e1.csv")
        b = state(out)
        code = execute(ns(w, inip, out, t="res", ew=nm), seed)
        ctx = {"case": "existing ephemeris", "name": nm, "file": f, "exit": str(code)[:200]}
        ck.case([ctx, i], True, ctx)
        if code != 0:
            ck.ev("refused_existing_ephemeris")
        af = state(out)
        for r in b:
            ck.ensure(af.get(r) == b[r], "an existing file was changed by a run without force", {"ctx": ctx, "file": r}, "ephemeris")
        # the ephemeris is only written by runs which compute one, so the present run may be refused or may run, but must not write it
        ck.ensure(code != 0 or f in af, "the existing ephemeris is gone", ctx)
    else:  # a run which fails: other runs' files stay, and nothing is left that looks like a result of another run
        bad = dict(w.files)
        q = os.path.join(d, "in", "bad.csv")
        t = pd.read_csv(w.files["paramsinput"], dtype=str, keep_default_na=False, na_values=[""])
        t.drop(columns=[c for c in t.columns if c.startswith("H_")]).to_csv(q, index=False)
        bad["paramsinput"] = q
        old, w.files = w.files, bad
        inip = W.write_ini(sec, os.path.join(d, "c.ini"))
        names = ["other.csv", "res2.csv", "res.v2.csv", "xres.csv", "res-1.db"]
        for x in names:
            fill(rng, out, x)
        mine = rng.random() < 0.5
        if mine:
            fill(rng, out, "res.csv")
        b = state(out)
        force = bool(rng.random() < 0.5)
        code = execute(ns(w, inip, out, t="res", st="tally", f=force), seed)
        w.files = old
        ctx = {"case": "failing run", "force": force, "mine": mine, "exit": str(code)[:200]}
        ck.case([ctx, i], True, ctx)
        ck.ev("failed_runs")
        ck.ensure(code != 0, "a run without absolute magnitudes ended normally", ctx)
        af = state(out)
        for r in b:
            if not (r == "res.csv" and force):
                ck.ensure(af.get(r) == b[r], "a failing run changed a file of another run", {"ctx": ctx, "file": r}, "failing run")


def part_ar(ck):
    """Runs which compute and write an ephemeris."""
    from checks.c01 import ar_world

    rng = ck.rng("ar")
    for i in range(ck.n(3, 12)):
        w, over, ar = ar_world(rng, n=4)
        d = W.tmpdir()
        try:
            P.write(w, os.path.join(d, "in"), "csv", "csv", rng=rng)
            w.files.pop("input_ephemeris_file", None)
            out, clean = os.path.join(d, "o"), os.path.join(d, "clean")
            os.makedirs(out)
            os.makedirs(clean)
            o = {k: dict(v) for k, v in over.items()}
            fmt = ["csv", "whitespace", "hdf5"][i % 3]
            o.setdefault("INPUT", {}).update({"eph_format": fmt, "size_serial_chunk": "2"})
            o.setdefault("OUTPUT", {})["output_format"] = "csv"
            inip = W.write_ini(P.sections(w, **o), os.path.join(d, "c.ini"))
            ext = ".h5" if fmt == "hdf5" else ".csv"
            c = execute(ns(w, inip, clean, t="res", ew="eph", ar=ar), 5)
            ck.ensure(c == 0, "a run writing its ephemeris does not end normally", {"exit": str(c)[:300]}, "clean run")
            # without force: refused, untouched
            for f in ("eph" + ext,):
                fill(rng, out, f)
            fill(rng, out, "eph2" + ext)
            b = state(out)
            ctx = {"case": "written ephemeris", "format": fmt}
            c = execute(ns(w, inip, out, t="res", ew="eph", ar=ar), 5)
            ck.case([ctx, i], True, ctx)
            ck.ensure(c != 0, "an existing ephemeris was to be overwritten without force", ctx, "not refused")
            af = state(out)
            ck.ensure(all(af.get(r) == b[r] for r in b) and all(islog(r, "res") for r in af if r not in b), "a refused run changed or wrote files",
                      {"ctx": ctx, "files": sorted(af)}, "refused but wrote")
            ck.ev("refused_existing_ephemeris")
            c = execute(ns(w, inip, out, t="res", ew="eph", ar=ar, f=True), 5)
            ck.ensure(c == 0, "a forced run writing its ephemeris does not end normally", {"ctx": ctx, "exit": str(c)[:300]})
            af = state(out)
            ck.ensure(af.get("eph2" + ext) == b["eph2" + ext], "force replaced the ephemeris of another run", ctx)
            e = [readeph(os.path.join(x, "eph" + ext), fmt) for x in (out, clean)]
            ck.ensure(equal(*e), "the ephemeris written over an existing one differs from a clean one", {"ctx": ctx, "rows": [None if x is None else len(x) for x in e]}, "mixed ephemeris")
            ck.ev("forced_runs")
            # one file for both
            c = execute(ns(w, inip, out, t="both", ew="both" if fmt != "hdf5" else "both", st="both" if fmt == "hdf5" else None, ar=ar), 5)
            ck.ensure(c != 0, "two outputs were written into the same file", ctx, "mixed files")
            ck.ev("colliding_names")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def readeph(p, fmt):
    if not os.path.exists(p):
        return None
    if fmt == "hdf5":
        return pd.read_hdf(p, "sorcha_ephemeris")
    return pd.read_csv(p, dtype={"ObjID": str}, keep_default_na=False, na_values=[""], sep=" " if fmt == "whitespace" else ",")


def part_copy(ck):
    """sorcha init and sorcha demo prepare."""
    from importlib.resources import files
    from sorcha.utilities.sorcha_copy_configs import copy_demo_configs
    from sorcha.utilities.sorcha_copy_demo_files import copy_demo_files
    import contextlib
    import io

    sets = {"rubin_circle": ["Rubin_circular_approximation.ini"], "rubin_footprint": ["Rubin_full_footprint.ini"], "rubin_known": ["Rubin_known_object_prediction.ini"],
            "des_configs": ["DES_config_file.ini"]}
    sets["all"] = [x for v in sets.values() for x in v]
    rng = ck.rng("copy")
    for i in range(ck.n(72, 300)):
        which = list(sets)[i % 5] if i % 6 else "demo"
        demo = which == "demo"
        fl = ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"] if demo else sets[which]
        d = W.tmpdir()
        try:
            pre = [f for f in fl if rng.random() < 0.4]
            force = bool(rng.random() < 0.4)
            for f in pre:
                fill(rng, d, f)
            for f in ("mine.ini", fl[0] + ".bak", "sub/" + fl[0], fl[-1].upper()):
                fill(rng, d, f)
            b = state(d)
            ctx = {"case": "copy", "which": which, "present": pre, "force": force}
            code = 0
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    copy_demo_files(d, force) if demo else copy_demo_configs(d, which, force)
                except SystemExit as e:
                    code = e.code
                except FileNotFoundError:
                    ck.ensure(demo, "a configuration file to be copied does not exist", ctx)
                    code = None  # the demo's pointing database is not part of the source tree
            a = state(d)
            ck.case([ctx, i], bool(pre), ctx)
            if code is None:
                for r in b:
                    if r not in fl or not force:
                        ck.ensure(a.get(r) == b[r], "a copy command changed an existing file", {"ctx": ctx, "file": r}, "copy")
                if pre and not force:
                    ck.ev("copy_refused")
                continue
            root = files("sorcha.data.demo" if demo else "sorcha.data.survey_setups")
            good = {f: hashlib.sha256(root.joinpath(f).read_bytes()).hexdigest() for f in fl if code == 0}
            for r in b:
                if r not in fl or not force:
                    ck.ensure(a.get(r) == b[r], "a copy command changed an existing file", {"ctx": ctx, "file": r}, "copy")
            ck.ensure(all(r in fl for r in a if r not in b), "a copy command wrote other files", ctx)
            if pre and not force:
                ck.ensure(code != 0, "a copy command over existing files was not refused", ctx, "copy not refused")
                ck.ev("copy_refused")
            else:
                ck.ensure(code == 0, "a copy command was refused needlessly", {"ctx": ctx, "exit": str(code)[:200]})
                ck.ensure(all(a.get(f, ("", ""))[1] == good[f] for f in fl), "a copied file differs from the original", ctx)
                ck.ev("copy_forced" if force and pre else "copy_fresh")
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("runs", part_runs), ("hostile", part_hostile), ("ar", part_ar), ("copy", part_copy)]
