"""C27: unusable input files are refused, whatever the chunk; usable ones never are."""
import os
import shutil

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks.c26 import EL

FORMATS = ["KEP", "BKEP", "COM", "BCOM", "CART", "BCART"]
BASE = {f: f[1:] if f[0] == "B" else f for f in FORMATS}


def make():
    ck = Check(
        "C27",
        "Each case is one generated orbit file (format, separator, row order, one deviation from the documented form or none) read by one history "
        "of block or identifier reads; one set of auxiliary files with their identifiers; or one complete run with a bad row in some chunk. "
        "Non-trivial = the file had rows.",
        ["repeated identifiers which agree between the files are the user's responsibility (documented) and not judged",
         "missing physical parameters are not judged: such objects are never detected",
         "a semi-major axis or perihelion distance of exactly zero is not generated for the runs (documented: a warning)"],
    )
    ck.need("bad_files", 250)
    ck.need("good_files", 120)
    ck.need("bad_refused", 250)
    ck.need("bad_beyond_first_block", 35)
    ck.need("good_rows", 1000)
    for f in FORMATS:
        ck.need("format_" + f, 20)
    ck.need("id_sets_equal", 30)
    ck.need("id_sets_differ", 60)
    ck.need("id_refused", 60)
    ck.need("runs_refused", 25)
    ck.need("runs_accepted", 4)
    ck.need("runs_bad_in_later_chunk", 6)
    ck.need("command_line_runs", 4)
    return ck


def orbits(rng, fmt, ids):
    n = len(ids)
    b = BASE[fmt]
    d = {"ObjID": ids, "FORMAT": [fmt] * n}
    if b == "CART":
        for c in EL[b][:3]:
            d[c] = np.round(rng.uniform(-40, 40, n), 6)
        for c in EL[b][3:6]:
            d[c] = np.round(rng.uniform(-0.02, 0.02, n), 9)
    else:
        d["a" if b == "KEP" else "q"] = np.round(rng.uniform(0.1, 60, n), 6)
        d["e"] = np.round(rng.uniform(0, 0.99, n), 6)
        d["inc"] = np.round(rng.uniform(0, 180, n), 6)
        lo = 0 if rng.random() < 0.5 else -180
        d["node"] = np.round(rng.uniform(lo, lo + 360, n), 6)
        d["argPeri"] = np.round(rng.uniform(lo, lo + 360, n), 6)
        d["ma" if b == "KEP" else "t_p_MJD_TDB"] = np.round(rng.uniform(lo, lo + 360, n), 6) if b == "KEP" else np.round(rng.uniform(50000, 66000, n), 4)
    d["epochMJD_TDB"] = np.round(rng.uniform(53000, 61000, n), 3)
    df = pd.DataFrame(d).astype({"ObjID": object, "FORMAT": object})
    return df[["ObjID", "FORMAT"] + EL[b]]


# deviations which stay within the documented form, and those which do not: (name, formats, function(rng, df, rows) -> offending rows or "all")
def put(c, v):
    def f(rng, df, r):
        x = v(rng) if callable(v) else v
        df[c] = df[c].astype(object)
        df.loc[r, c] = x
        return r
    return f


GOOD = [
    ("plain", FORMATS, lambda rng, df, r: None),
    ("circular", ["KEP", "BKEP", "COM", "BCOM"], put("e", 0.0)),
    ("nearly parabolic", ["KEP", "BKEP"], put("e", 0.99999999)),
    ("parabolic", ["COM", "BCOM"], put("e", 1.0)),
    ("hyperbolic", ["COM", "BCOM"], put("e", lambda g: float(np.round(g.uniform(1.01, 6), 4)))),
    ("q zero", ["COM", "BCOM"], put("q", 0.0)),
    ("tiny q", ["COM", "BCOM"], put("q", 1e-7)),
    ("tiny a", ["KEP", "BKEP"], put("a", 1e-5)),
    ("odd inclination", ["KEP", "COM", "BCOM"], put("inc", lambda g: float(g.choice([-3.0, 181.0, 400.0])))),
    ("odd angles", ["KEP", "COM", "BKEP"], put("node", lambda g: float(g.choice([-200.0, 361.0, 720.0])))),
    ("old epoch", FORMATS, put("epochMJD_TDB", 0.0)),
    ("julian t_p", ["COM", "BCOM"], put("t_p_MJD_TDB", 2460000.5)),
    ("origin", ["CART", "BCART"], put("x", 0.0)),
]


def drop_col(rng, df, r):
    del df[str(rng.choice(list(df.columns[2:])))]
    return "all"


def extra_col(rng, df, r):
    df["extra" if rng.random() < 0.5 else "H_r"] = 1.5
    return "all"


def swap_col(rng, df, r):
    """Nine columns, but not the right ones."""
    c = str(rng.choice(list(df.columns[2:])))
    df.rename(columns={c: rng.choice([c.upper() if c.upper() != c else c.lower(), c + "_", "M" + c])}, inplace=True)
    return "all"


def other_name(rng, df, r):
    f = df["FORMAT"].iloc[0]
    df["FORMAT"] = rng.choice([f.lower(), "COMET", "KEPLER", "CARTESIAN", "X" + f, f + "1", "0"])
    return "all"


def no_format(rng, df, r):
    del df["FORMAT"]
    if rng.random() < 0.5:
        df["frm"] = df.shape[0]
    return "all"


def mixed(rng, df, r):
    f = df["FORMAT"].iloc[0]
    o = {"KEP": "BKEP", "BKEP": "KEP", "COM": "BCOM", "BCOM": "COM", "CART": "BCART", "BCART": "CART"}[f] if rng.random() < 0.7 else str(rng.choice([x for x in FORMATS if x != f]))
    df.loc[r, "FORMAT"] = o
    return "mixed"


def wrong_set(rng, df, r):
    f = df["FORMAT"].iloc[0]
    o = [x for x in FORMATS if BASE[x] != BASE[f]]
    df["FORMAT"] = str(rng.choice(o))
    return "all"


def anycol(v):
    return lambda rng, df, r: put(str(rng.choice(list(df.columns[2:]))), v)(rng, df, r)


KC = ["KEP", "BKEP", "COM", "BCOM"]
BAD = [
    ("parabolic Keplerian", ["KEP", "BKEP"], put("e", 1.0)),
    ("hyperbolic Keplerian", ["KEP", "BKEP"], lambda rng, df, r: (put("e", 1.3)(rng, df, r), put("a", float(rng.choice([-3.0, 3.0])))(rng, df, r))[0]),
    ("e just above one", ["KEP", "BKEP"], put("e", 1.000001)),
    ("negative e", KC, put("e", lambda g: float(g.choice([-1e-9, -0.3, -2.0])))),
    ("negative a", ["KEP", "BKEP"], put("a", lambda g: float(g.choice([-1e-6, -2.5])))),
    ("negative q", ["COM", "BCOM"], put("q", lambda g: float(g.choice([-1e-9, -1.0])))),
    ("missing entry", FORMATS, anycol("")),
    ("not a number", FORMATS, anycol(lambda g: str(g.choice(["abc", "1..2", "1.5d0", "--", "0x10"])))),
    ("infinite", FORMATS, anycol(lambda g: str(g.choice(["inf", "-inf", "1e999"])))),
    ("column missing", FORMATS, drop_col),
    ("column too many", FORMATS, extra_col),
    ("column misnamed", FORMATS, swap_col),
    ("unknown format", FORMATS, other_name),
    ("no format", FORMATS, no_format),
    ("no format entry", FORMATS, put("FORMAT", "")),
    ("mixed formats", FORMATS, mixed),
    ("elements of another format", FORMATS, wrong_set),
]


def save(rng, path, df, sep):
    s = "," if sep in ("csv", "comma") else " "
    with open(path, "w") as fh:
        fh.write(s.join(df.columns) + "\n")
        for r in df.itertuples(index=False):
            # in a file separated by blanks a missing entry has to be marked
            fh.write(s.join((repr(x) if isinstance(x, float) else str(x)) or ("nan" if s == " " else "") for x in r) + "\n")


def same(got, want):
    if len(got) != len(want) or set(got.columns) != set(want.columns):
        return False
    for c in want.columns:
        a, b = got[c].to_numpy(), want[c].to_numpy()
        if c in ("ObjID", "FORMAT"):
            if [str(x) for x in a] != [str(x) for x in b]:
                return False
        elif not np.allclose(a.astype(float), b.astype(float), rtol=1e-15, atol=0):
            return False
    return True


def files(ck):
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    for i in range(ck.n(520, 9000)):
        rng = ck.rng("f", i)
        d = W.tmpdir()
        try:
            good = i % 3 == 0
            name, fmts, fn = (GOOD if good else BAD)[int(rng.integers(len(GOOD if good else BAD)))]
            fmt = str(rng.choice(fmts))
            n = int(rng.integers(1, 14)) if name != "mixed formats" else int(rng.integers(2, 14))
            ids = [str(x) for x in P.names(rng, n, "plain")]
            df = orbits(rng, fmt, ids)
            ck.ev("format_" + fmt)
            r = sorted(rng.choice(n, 1 if rng.random() < 0.7 else int(rng.integers(1, n + 1)), replace=False).tolist())
            if name == "mixed formats" and len(r) == n:
                r = r[1:]
            off = fn(rng, df, r)
            off = [] if good or off is None else off
            if rng.random() < 0.5:  # the order of the columns is free, ObjID first
                c = list(rng.permutation(df.columns[1:]))
                df = df[["ObjID"] + c]
            sep = str(rng.choice(["csv", "whitespace", "comma"]))
            path = os.path.join(d, "orb.txt")
            save(rng, path, df, sep)
            ctx = {"what": name, "format": fmt, "separator": sep, "rows": n, "offending": off, "file": open(path).read()[:1200]}
            ck.ev("good_files" if good else "bad_files")
            ck.case(["file", name, fmt, sep, n, str(off), i], n > 0, {k: ctx[k] for k in ("what", "format", "separator", "rows", "offending")})
            want = df.copy()
            if good:
                for c in want.columns:
                    if c not in ("ObjID", "FORMAT"):
                        want[c] = want[c].astype(float)
            cache = bool(rng.random() < 0.25)
            blocks(ck, rng, OrbitAuxReader, path, sep, df, want, good, off, cache, ctx)
            objects(ck, rng, OrbitAuxReader, path, sep, df, want, good, off, cache, ctx)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def blocks(ck, rng, R, path, sep, df, want, good, off, cache, ctx):
    n = len(df)
    size = (int(rng.integers(1, 4)) if rng.random() < 0.6 else int(rng.integers(1, n + 3))) if rng.random() < 0.85 else None
    ctx = dict(ctx, blocks_of=size, cached=cache)
    rd, e = ck.call(R, path, sep, cache_table=cache)
    at, got = 0, []
    while e is None:
        t, e = ck.call(rd.read_rows, at, size)
        if e is not None or not len(t):
            break
        got.append(t)
        at += len(t)
        if size is None or at > 3 * n:
            break
    ids = [str(x) for t in got for x in t["ObjID"]]
    if good:
        ck.ensure(e is None, f"a usable orbit file ({ctx['what']}) was refused: {type(e).__name__} {str(e)[:200]}", ctx)
        if e is None:
            ck.ev("good_rows", len(ids))
            ck.ensure(same(pd.concat(got, ignore_index=True)[list(want.columns)], want), f"orbits of a usable file ({ctx['what']}) were not returned as written", lambda: dict(ctx, got=pd.concat(got)))
        return
    if not ck.ensure(e is not None, f"an orbit file was accepted in blocks of {size} although: {ctx['what']}", ctx):
        return
    refused(ck, e, ctx)
    if off == "all":
        ck.ensure(not ids, f"rows of an orbit file were handed out although: {ctx['what']}", dict(ctx, rows_out=ids))
    elif off == "mixed":
        f = {str(x) for t in got for x in t["FORMAT"]}
        ck.ensure(len(f) <= 1, "rows of different FORMATs were handed out", dict(ctx, formats=sorted(f)))
    else:
        bad = {str(df["ObjID"].iloc[k]) for k in off}
        ck.ensure(not bad & set(ids), f"an offending orbit was handed out although: {ctx['what']}", dict(ctx, rows_out=ids))
    if ids:
        ck.ev("bad_beyond_first_block")


def refused(ck, e, ctx):
    ck.ev("bad_refused")
    ck.ensure(not isinstance(e, SystemExit) or e.code not in (None, 0), f"the refusal of a file ({ctx['what']}) counts as success: exit code {getattr(e, 'code', None)!r}", ctx)


def objects(ck, rng, R, path, sep, df, want, good, off, cache, ctx):
    ids = [str(x) for x in df["ObjID"]]
    k = int(rng.integers(1, len(ids) + 1))
    pick = sorted(rng.choice(len(ids), k, replace=False).tolist())
    ctx = dict(ctx, asked=[ids[j] for j in pick], cached=cache)
    rd, e = ck.call(R, path, sep, cache_table=cache)
    if e is None:
        t, e = ck.call(rd.read_objects, [ids[j] for j in pick])
    if good:
        if ck.ensure(e is None, f"reading objects of a usable orbit file ({ctx['what']}) was refused: {type(e).__name__} {str(e)[:200]}", ctx):
            ck.ensure(same(t[list(want.columns)], want.iloc[pick]), "objects of a usable orbit file were not returned as written", ctx)
        return
    hit = off == "all" or (off == "mixed" and df["FORMAT"].iloc[pick].nunique() > 1) or (isinstance(off, list) and set(off) & set(pick))
    if hit:
        if ck.ensure(e is not None, f"offending orbits were handed out by an identifier read although: {ctx['what']}", ctx):
            refused(ck, e, ctx)


def identifiers(ck):
    """All auxiliary files must hold the same identifiers."""
    from sorcha.readers.CombinedDataReader import CombinedDataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader
    from sorcha.readers.CSVReader import CSVDataReader

    for i in range(ck.n(140, 2500)):
        rng = ck.rng("i", i)
        d = W.tmpdir()
        try:
            n = int(rng.integers(2, 15))
            ids = [str(x) for x in P.names(rng, n, None)]
            nf = int(rng.integers(2, 4))
            sets = [list(rng.permutation(np.array(ids, object))) for _ in range(nf)]
            k = int(rng.integers(nf))
            what = str(rng.choice(["equal", "missing", "extra", "replaced", "case", "twice", "moved", "blank"], p=[0.3] + [0.1] * 7))
            s = sets[k]
            j = int(rng.integers(n))
            if what == "missing":
                s.pop(j)
            elif what == "extra":
                s.insert(j, "zz" + s[j])
            elif what == "replaced":
                s[j] = s[j] + "x"
            elif what == "case":
                s[j] = s[j].swapcase()
                if s[j] == sets[(k + 1) % nf][0] or s[j] in ids:
                    s[j] = "Q" + s[j]
            elif what == "twice":  # one more row for an identifier than in the other file(s)
                s.insert(j, s[j - 1])
            elif what == "moved":  # the same number of rows and the same identifiers, but not as often
                t = sets[(k + 1) % nf]
                a, b = ids[0], ids[1]
                s[s.index(a)] = b
                if rng.random() < 0.5:
                    t[t.index(b)] = a
            elif what == "blank":
                s[j] = "0" + s[j]
            same_sets = what == "equal"
            from collections import Counter

            assert same_sets == all(Counter(x) == Counter(sets[0]) for x in sets)
            sep = "csv" if any(" " in x for x in ids) else str(rng.choice(["csv", "whitespace"]))
            rd = CombinedDataReader()
            for f, s in enumerate(sets):
                path = os.path.join(d, f"f{f}")
                df = orbits(rng, "COM", s) if f == 0 else pd.DataFrame({"ObjID": s, "H_r": 15.5, "g-r": 0.5, f"c{f}": 1.0})
                df["ObjID"] = pd.Series(s, dtype=object)
                if f and "," in "".join(s) and sep == "csv":
                    raise SkipCase()
                save(rng, path, df, sep)
                rd.add_aux_data_reader((OrbitAuxReader if f == 0 else CSVDataReader)(path, sep))
            _, e = ck.call(rd.check_aux_object_ids)
            ctx = {"what": what, "files": nf, "changed": k, "ids": sets}
            ck.case(["ids", what, nf, k, n, i], True, {"what": what, "files": nf, "changed": k})
            ck.ev("id_sets_equal" if same_sets else "id_sets_differ")
            if same_sets:
                ck.ensure(e is None, f"files with the same identifiers were refused: {str(e)[:200]}", ctx)
            elif ck.ensure(e is not None, f"auxiliary files with different identifiers ({what} in file {k} of {nf}) were accepted", ctx):
                ck.ensure(not isinstance(e, SystemExit) or e.code not in (None, 0), "the refusal counts as success", ctx)
                ck.ev("id_refused")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def runs(ck):
    """Complete runs: an unusable file stops the run with an error and nothing of the offending chunk is reported."""
    kinds = ["orbit", "orbit", "orbit", "mixed", "ids", "no_H", "no_colour", "no_phase", "no_eph_column", "good"]
    for i in range(ck.n(60, 700)):
        rng = ck.rng("r", i)
        d = W.tmpdir()
        try:
            kind = kinds[i % len(kinds)]
            w = P.make(rng, "DES" if rng.random() < 0.2 else "rubin_sim", n=int(rng.integers(5, 12)), phase=str(rng.choice(["HG", "HG1G2", "HG12", "linear"])), hrange=(15.0, 19.0))
            n = len(w.orbits)
            fmt = str(rng.choice(FORMATS))
            w.orbits = orbits(rng, fmt, [str(x) for x in w.orbits.ObjID])
            chunk = int(rng.choice([1, 2, 2, 3, n - 1, 100]))
            ep, off = "csv", None
            name = kind
            if kind == "orbit":
                name, fmts, fn = [b for b in BAD if fmt in b[1] and b[0] != "mixed formats"][int(rng.integers(len([b for b in BAD if fmt in b[1]]) - 1))]
                off = fn(rng, w.orbits, [int(rng.integers(n // 2 if rng.random() < 0.6 else 0, n))])
            elif kind == "mixed":
                k = int(rng.integers(1, n))
                w.orbits.loc[k:, "FORMAT"] = {"KEP": "BKEP", "BKEP": "KEP", "COM": "BCOM", "BCOM": "COM", "CART": "BCART", "BCART": "CART"}[fmt]
                off = list(range(k, n))
            elif kind == "ids":
                w.params = w.params.reset_index(drop=True)
                if rng.random() < 0.5:
                    w.params = w.params.iloc[1:]
                else:
                    w.params.loc[0, "ObjID"] = "other"
                off = "all"
            elif kind == "no_H":
                w.params = w.params.rename(columns={c: "mag" for c in w.params.columns if c.startswith("H_")})
                off = "all"
            elif kind == "no_colour":
                c = [c for c in w.params.columns if "-" in c]
                if not c:
                    raise SkipCase()
                del w.params[str(rng.choice(c))]
                off = "all"
            elif kind == "no_phase":
                c = [c for c in w.params.columns if c in ("GS", "G1", "G2", "G12", "S")]
                if not c:
                    raise SkipCase()
                del w.params[str(rng.choice(c))]
                off = "all"
            elif kind == "no_eph_column":
                del w.eph[str(rng.choice(list(w.eph.columns[1:])))]
                off = "all"
            P.write(w, d)
            ctx = {"what": name, "kind": kind, "format": fmt, "chunk": chunk, "offending": off, "objects": n, "survey": w.survey}
            over = {"INPUT": {"size_serial_chunk": str(chunk)}, "EXPERT": {"randomization_on": "False", "default_snr_cut": "False"}}
            if w.survey == "DES":
                over.pop("EXPERT")
            out = os.path.join(d, "o")
            use_cli = i % 10 == 3 or i % 17 == 5
            if use_cli:
                p = P.cli(w, out, over=over, seed=1)
                e = None if p.returncode == 0 else RuntimeError(f"exit code {p.returncode}")
                crashed = p.returncode < 0
                ck.ensure(not crashed, f"the command line was killed by signal {-p.returncode}: {name}", ctx)
                ck.ev("command_line_runs")
            else:
                _, e = ck.call(P.run, w, out, 1, **over)
                ck.ensure(not isinstance(e, SystemExit) or e.code not in (None, 0), f"a run with unusable files ends as a success: {name}", ctx)
            res = P.read_output(out, "out", "csv") if os.path.exists(os.path.join(out, "out.csv")) else None
            ids = set() if res is None else set(res.ObjID.astype(str))
            ck.case(["run", kind, name, fmt, chunk, str(off), i], True, {k: ctx[k] for k in ("what", "format", "chunk", "offending")})
            if kind == "good":
                if ck.ensure(e is None, f"a run with usable files failed: {type(e).__name__} {str(e)[:200]}", ctx):
                    ck.ev("runs_accepted")
                continue
            if not ck.ensure(e is not None, f"a run with unusable files went on to the end: {name}", ctx):
                continue
            ck.ev("runs_refused")
            if off == "all":
                ck.ensure(not ids, f"a run with unusable files reported detections: {name}", dict(ctx, reported=sorted(ids)))
            else:
                first = min(off) // chunk * chunk  # the chunk of the first offending row (in file order)
                allowed = {str(x) for x in w.orbits.ObjID.iloc[:first]} if kind == "orbit" else {str(x) for x in w.orbits.ObjID.iloc[: min(off)]}
                ck.ensure(ids <= allowed, f"a run reported objects of the chunk with an unusable orbit: {name}", dict(ctx, reported=sorted(ids), allowed=sorted(allowed)))
                if first > 0:
                    ck.ev("runs_bad_in_later_chunk")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("files", files), ("identifiers", identifiers), ("runs", runs)]
