"""C31: merging outputs into one database conserves every row."""
import argparse
import collections
import contextlib
import io
import os
import shutil
import sqlite3
import subprocess
import sys

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W

COLS = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag", "trailedSourceMagSigma",
        "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km", "object_linked", "g-r", "H_r", "AstRARate(mas/yr)", "date_linked_MJD", "FieldID"]


def make():
    ck = Check(
        "C31",
        "Each case is one tree of result databases (generated ones with drawn columns, column orders and values, or written by real runs), input tables beside it, and one or "
        "several calls of the create-sqlite command; the multiset of rows of the made tables, each row as {column: value}, is compared with that of the files. "
        "Non-trivial = at least two result files with rows.",
        ["input files are whitespace-separated, as documented", "values of input files are compared to 2 units in the last place", "files called *.db which are no SQLite databases are not generated"],
    )
    for k, n in {"rows_merged": 2000, "files_merged": 120, "different_columns": 12, "reordered_columns": 8, "output_among_results": 6, "reruns": 20, "linked_files": 4,
                 "other_databases": 7, "special_names": 15, "inputs_rows": 800, "numeric_ids": 15, "mixed_inputs": 8, "refusals": 8, "real_outputs": 2, "own_process": 3}.items():
        ck.need(k, n)
    return ck


def norm(v):
    if v is None or (isinstance(v, float) and v != v):
        return None
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


def rowset(cols, rows):
    return collections.Counter(tuple(sorted((c, type(norm(v)).__name__, norm(v)) for c, v in zip(cols, r) if norm(v) is not None)) for r in rows)


def read(p, table):
    con = sqlite3.connect(p)
    try:
        cur = con.execute(f"select * from {table}")
        return [x[0] for x in cur.description], cur.fetchall()
    finally:
        con.close()


def tables(p):
    con = sqlite3.connect(p)
    try:
        return {r[0] for r in con.execute("select name from sqlite_master where type='table'")}
    finally:
        con.close()


def values(rng, col, n, ids):
    if col == "ObjID":
        return [str(x) for x in rng.choice(ids, n)]
    if col == "optFilter":
        return [str(x) for x in rng.choice(list("ugrizy"), n)]
    if col == "object_linked":
        return [int(x) for x in rng.integers(0, 2, n)]
    if col == "FieldID":
        return [int(x) for x in rng.integers(0, 2 ** 40, n)]
    v = [float(x) for x in rng.normal(0, 10.0 ** rng.integers(-6, 9), n)]
    if col == "date_linked_MJD":
        v = [x if rng.random() < 0.5 else None for x in v]
    return v


def ids(rng, n):
    k = rng.integers(4)
    if k == 0:
        return [f"{x:06d}" for x in rng.permutation(10 ** 4)[:n]], True
    if k == 1:
        return [f"{x}e{x % 4}" for x in rng.permutation(900)[:n] + 1], True
    if k == 2:
        return [f"{x}.0" for x in rng.permutation(900)[:n]], True
    return [f"S{x:06x}é" for x in rng.permutation(10 ** 5)[:n]], False


def writedb(rng, p, cols, n, idl):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    rows = list(zip(*[values(rng, c, n, idl) for c in cols])) if n else []
    if rows and rng.random() < 0.3:
        rows += [rows[0]]  # the same row twice is two rows
    con = sqlite3.connect(p)
    con.execute("create table sorcha_results (" + ", ".join(f'"{c}" {"TEXT" if c in ("ObjID", "optFilter") else "INTEGER" if c in ("object_linked", "FieldID") else "REAL"}' for c in cols) + ")")
    con.executemany(f"insert into sorcha_results values ({','.join('?' * len(cols))})", rows)
    if rng.random() < 0.5:
        con.execute("create index ObjID on sorcha_results (ObjID)")
    if rng.random() < 0.2:
        con.execute("create table another (a, b)")
    con.commit()
    con.close()
    return rows


def inputs(rng, d, idl, kind, complete=True):
    """Whitespace-separated tables; returns {table: (columns, rows)} expected, by file."""
    exp = {}
    mixed = False
    from checks.c26 import EL

    for t in ("orbits", "params", "complex"):
        nf = int(rng.integers(1, 4))
        parts = np.array_split(np.array(idl, object), nf)
        out = []
        fm = str(rng.choice(list(EL)))
        for j, part in enumerate(parts):
            if t == "orbits":
                f = str(rng.choice(list(EL))) if rng.random() < 0.4 else fm
                cols = ["ObjID", "FORMAT"] + EL[f]
                mixed |= f != fm
            elif t == "params":
                f, cols = None, ["ObjID", "H_r", "g-r", "GS"]
                if rng.random() < 0.3:
                    cols = ["ObjID", "GS", "H_r", "i-r"]
                    mixed = True
            else:
                f, cols = None, ["ObjID", "afrho1", "k"]
            if rng.random() < 0.2 and t == "orbits":
                cols = cols + ["INDEX"]
            rows = []
            nm = t + ["", "_a", "-1", ".v2"][int(rng.integers(4))] + str(j) + str(rng.choice([".txt", ".des", ".csv", ""]))
            with open(os.path.join(d, nm), "w") as fh:
                if rng.random() < 0.25:
                    fh.write("# a comment line\n")
                fh.write((" " if rng.random() < 0.6 else "\t").join(cols) + "\n")
                for o in part:
                    r = [str(o)]
                    for c in cols[1:]:
                        r.append(f if c == "FORMAT" else str(j + 7) if c == "INDEX" else repr(float(rng.normal(0, 100))))
                    rows.append(r)
                    fh.write((" " * int(rng.integers(1, 3))).join(r) + "\n")
                if rows and rng.random() < 0.15:  # a line which is there twice
                    rows.append(rows[-1])
                    fh.write(" ".join(rows[-1]) + "\n")
            out.append((cols, rows))
        exp[t] = out
    return exp, mixed


def check_inputs(ck, db, exp, ctx):
    for t, fl in exp.items():
        cols, rows = read(db, t)
        ren = ["INDEX" if c == "orig_index" else c for c in cols]
        got = {}
        for r in rows:
            z = {c: v for c, v in zip(ren, r) if v is not None and c != "index"}
            got.setdefault(z.get("ObjID"), []).append(z)
        n = sum(len(r) for _, r in fl)
        ck.ev("inputs_rows", n)
        ck.ensure(len(rows) == n, f"the {t} table has another number of rows than the {t} files", {"ctx": ctx, "expected": n, "got": len(rows)}, "input rows")
        for cs, rs in fl:
            for r in rs:
                want = dict(zip(cs, r))
                z = got.get(want["ObjID"])
                if not z:
                    ck.violation(f"an object of the {t} files is missing in the {t} table under its identifier",
                                 {"ctx": ctx, "ObjID": want["ObjID"], "table has": [str(x) for x in list(got)[:6]]}, "input identifiers")
                    continue
                z = z[0]
                bad = [c for c in want if not same(want[c], z.get(c))] + [c for c in z if c not in want]
                ck.ensure(not bad, f"values of the {t} table differ from the {t} file", lambda: {"ctx": ctx, "ObjID": want["ObjID"], "columns": bad, "file": [want.get(c) for c in bad],
                                                                                               "table": [str(z.get(c)) for c in bad]}, "input values")


def same(w, g):
    if isinstance(g, str) or g is None:
        return w == g
    try:
        return abs(float(w) - float(g)) <= 5e-16 * abs(float(w))
    except ValueError:
        return False


def call(ck, a, own=False):
    """The command behind `sorcha outputs create-sqlite`."""
    if own:
        x = [P.PY, "-m", "sorcha_cmdline.outputs", "create-sqlite", "-o", a.output, "-i", a.inputs, "-r", a.results] + (["-s", a.stem] if a.stem else []) + (["-c"] if a.complex else [])
        r = subprocess.run(x, capture_output=True, text=True, timeout=300)
        ck.ev("own_process")
        return r.returncode, r.stderr[-600:]
    from sorcha_cmdline.outputs import cmd_outputs_create_sqlite

    with contextlib.redirect_stdout(io.StringIO()):
        r, e = ck.call(cmd_outputs_create_sqlite, argparse.Namespace(**vars(a)))
    if isinstance(e, SystemExit):
        return e.code or 1, str(e)
    return (0, "") if e is None else (2, f"{type(e).__name__}: {e}")


def part_trees(ck):
    rng = ck.rng("trees")
    for i in range(ck.n(60, 600)):
        d = W.tmpdir()
        try:
            tree(ck, rng, d, i)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def tree(ck, rng, d, i):
    res = os.path.join(d, str(rng.choice(["results", "r[1]", "res*", "a b"])))
    inp = os.path.join(d, str(rng.choice(["in", "i[2]", "in put"])))
    if rng.random() < 0.2:
        inp = res
    os.makedirs(res, exist_ok=True)
    os.makedirs(inp, exist_ok=True)
    stem = [None, "run", "run", "r[ab]", "x*y", "SSPP"][int(rng.integers(6))]
    s = stem or "out"
    idl, numeric = ids(rng, int(rng.integers(4, 20)))
    if numeric:
        ck.ev("numeric_ids")
    base = COLS[:15] if rng.random() < 0.6 else [COLS[j] for j in sorted(rng.choice(len(COLS), 8, replace=False)) if j] + ["ObjID"]
    exp = collections.Counter()
    files = []
    diff = reord = False
    for j in range(int(rng.integers(1, 6))):
        cols = list(base)
        k = rng.random()
        if j and k < 0.25:
            cols = [str(c) for c in rng.permutation(cols)]
            reord = True
        elif j and k < 0.5:
            extra = [c for c in COLS if c not in base]
            if rng.random() < 0.5 and extra:
                cols.insert(int(rng.integers(len(cols))), str(rng.choice(extra)))
            else:
                cols.remove(str(rng.choice([c for c in cols if c != "ObjID"])))
            diff = True
        sub = ["", "", "sub", "a/b/c", "x[3]", "sub with space"][int(rng.integers(6))]
        p = os.path.join(res, sub, s + ["", "_", "-", "."][int(rng.integers(4))] + str(j) + ".db")
        n = 0 if rng.random() < 0.08 else int(rng.integers(1, 40))
        if i % 10 == 5 and j == 0:
            n = int(rng.integers(2001, 6000))
            ck.ev("large_outputs")
        rows = writedb(rng, p, cols, n, idl)
        files.append((p, cols, rows))
        exp += rowset(cols, rows)
    special = any(c in "[]*?" for c in res + inp + s)
    decoy = set()
    # databases which are not to be read: other stems, no Sorcha results, other extensions
    if stem:
        writedb(rng, os.path.join(res, "other_" + stem + ".db"), base, 3, idl)
        if "[" in stem or "*" in stem:
            writedb(rng, os.path.join(res, stem.replace("[ab]", "a").replace("*", "zz") + "9.db"), base, 3, idl)
    writedb(rng, os.path.join(res, s + "_old.db.bak"), base, 3, idl)
    writedb(rng, os.path.join(d, s + "_outside.db"), base, 3, idl)
    if rng.random() < 0.35:
        p = os.path.join(res, s + "_baseline.db")
        con = sqlite3.connect(p)
        con.execute("create table observations (observationId, filter)")
        con.execute("insert into observations values (1, 'r')")
        con.commit()
        con.close()
        ck.ev("other_databases")
    if rng.random() < 0.25:
        if rng.random() < 0.5:
            os.symlink(os.path.dirname(files[0][0]), os.path.join(res, "latest")) if os.path.dirname(files[0][0]) != res else os.symlink(files[0][0], os.path.join(res, s + "_link.db"))
        else:
            os.symlink(files[0][0], os.path.join(res, s + "_link.db"))
        ck.ev("linked_files")
    iexp, mixed = inputs(rng, inp, idl, None)
    open(os.path.join(inp, "myorbits.txt"), "w").write("ObjID a\nQQ 1\n")
    cx = bool(rng.random() < 0.5)
    if not cx:
        iexp.pop("complex")
    among = rng.random() < 0.45
    out = os.path.join(res, s + "_merged.db") if among else os.path.join(d, "merged.db")
    a = argparse.Namespace(output=out, inputs=inp, results=res, stem=stem, complex=cx)
    ctx = {"case": i, "results": os.path.basename(res), "inputs": os.path.basename(inp), "stem": stem, "files": [(os.path.relpath(p, d), len(r)) for p, c, r in files],
           "output": os.path.relpath(out, d), "reordered": reord, "different": diff, "mixed inputs": mixed}
    ck.case(ctx, sum(bool(r) for _, _, r in files) > 1, ctx)
    before = {p: open(p, "rb").read() for p, _, _ in files}
    for again in range(1 + (rng.random() < 0.5) + (rng.random() < 0.2)):
        code, msg = call(ck, a, own=i % 15 == 0 and not again)
        if code != 0:
            ck.violation("merging valid outputs failed", {"ctx": ctx, "run": again, "exit": str(code)[:100], "message": msg[-500:]}, "failed")
            return
        judge(ck, out, exp, files, ctx, again)
        check_inputs(ck, out, iexp, ctx)
        if again:
            ck.ev("reruns")
        elif rng.random() < 0.3:  # a further output appears
            p = os.path.join(res, "late", s + "_late.db")
            rows = writedb(rng, p, base, 5, idl)
            files.append((p, base, rows))
            exp = exp + rowset(base, rows)
    ck.ensure(all(open(p, "rb").read() == b for p, b in before.items()), "merging changed an output", ctx, "outputs changed")
    ck.ev("files_merged", len(files))
    ck.ev("rows_merged", sum(exp.values()))
    for k, v in {"different_columns": diff, "reordered_columns": reord, "output_among_results": among, "special_names": special, "mixed_inputs": mixed}.items():
        if v:
            ck.ev(k)


def judge(ck, out, exp, files, ctx, again):
    cols, rows = read(out, "sorcha_results")
    got = rowset(cols, rows)
    if got == exp:
        ck.ev("oracle_verdicts")
        return
    lost, extra = exp - got, got - exp
    ck.violation("the merged results are not the rows of the outputs",
                 {"ctx": ctx, "call": again, "rows": [sum(exp.values()), len(rows)], "missing": [str(x)[:400] for x in list(lost)[:2]], "surplus": [str(x)[:400] for x in list(extra)[:2]]},
                 "rows")


def part_refusals(ck):
    rng = ck.rng("refusals")
    for i in range(ck.n(12, 60)):
        d = W.tmpdir()
        try:
            res, inp = os.path.join(d, "res"), os.path.join(d, "in")
            os.makedirs(res)
            os.makedirs(inp)
            idl, _ = ids(rng, 5)
            inputs(rng, inp, idl, None)
            a = argparse.Namespace(output=os.path.join(d, "m.db"), inputs=inp, results=res, stem="run", complex=True)
            k = i % 4
            if k != 0:
                writedb(rng, os.path.join(res, "run.db"), COLS[:8], 4, idl)
            if k == 1:
                a.stem = "nothing"
            if k in (2, 3):
                t = ["orbits", "params", "complex"][int(rng.integers(3))]
                for f in os.listdir(inp):
                    if f.startswith(t):
                        os.remove(os.path.join(inp, f))
            if k == 3:
                a.inputs = os.path.join(d, "absent")
            code, msg = call(ck, a)
            ctx = {"case": ["no output", "other stem", "no inputs", "no directory"][k], "message": msg[:200]}
            ck.case([ctx, i], True, ctx)
            ck.ev("refusals")
            ck.ensure(code != 0, "a merge without outputs or inputs ended normally", ctx, "not refused")
        finally:
            shutil.rmtree(d, ignore_errors=True)


def part_real(ck):
    """Outputs of real runs."""
    rng = ck.rng("real")
    for i in range(ck.n(4, 30)):
        d = W.tmpdir()
        try:
            res, inp = os.path.join(d, "res"), os.path.join(d, "inputs")
            os.makedirs(res)
            os.makedirs(inp)
            exp = collections.Counter()
            nf = 0
            allids = {"orbits": [], "params": []}
            kind = int(rng.integers(0, 5))
            for j in range(3):
                w = P.make(rng, n=6, groups=1, nights=3, hrange=(14, 19), name_kind=None)
                P.write(w, os.path.join(d, f"in{j}"), "csv", "whitespace", rng=rng)
                shutil.copy(w.files["orbinfile"], os.path.join(inp, f"orbits_{j}.txt"))
                shutil.copy(w.files["paramsinput"], os.path.join(inp, f"params_{j}.txt"))
                for t, df in (("orbits", w.orbits), ("params", w.params)):
                    allids[t] += [str(x) for x in df["ObjID"]]
                over = {"OUTPUT": {"output_format": "sqlite3", "output_columns": "basic" if (i + j) % 3 else "all"}, "INPUT": {"aux_format": "whitespace", "size_serial_chunk": "3"}}
                if j == 2:
                    over["LINKINGFILTER"] = {"drop_unlinked": "False", "ssp_detection_efficiency": "0.95", "ssp_number_observations": "2", "ssp_separation_threshold": "0.5",
                                             "ssp_maximum_time": "0.0625", "ssp_number_tracklets": "3", "ssp_track_window": "15", "ssp_night_start_utc": "16.0"}
                r = ck.must(P.run, w, os.path.join(d, f"o{j}"), stem="run", _w=[i, j], **over)
                if r.out is None or not len(r.out):
                    continue
                os.makedirs(os.path.join(res, f"run{j}"))
                p = os.path.join(res, f"run{j}", "run.db")
                shutil.copy(os.path.join(r.dir, "run.db"), p)
                cols, rows = read(p, "sorcha_results")
                exp += rowset(cols, rows)
                nf += 1
            if nf < 2:
                continue
            out = os.path.join(res, "run_all.db")
            a = argparse.Namespace(output=out, inputs=inp, results=res, stem="run", complex=False)
            ctx = {"case": "real", "i": i, "files": nf, "rows": sum(exp.values())}
            ck.case(ctx, True, ctx)
            for again in range(2):
                code, msg = call(ck, a)
                if code:
                    ck.violation("merging outputs of real runs failed", {"ctx": ctx, "message": msg[-400:]}, "failed")
                    break
                judge(ck, out, exp, [], ctx, again)
                for t in allids:
                    cols, rows = read(out, t)
                    k = cols.index("ObjID")
                    ck.ensure(sorted(str(r[k]) if isinstance(r[k], str) else repr(r[k]) for r in rows) == sorted(allids[t]), f"the identifiers in the {t} table are not those of the files",
                              lambda: {"ctx": ctx, "file": sorted(allids[t])[:5], "table": sorted(map(repr, (r[k] for r in rows)))[:5]}, "input identifiers")
            ck.ev("real_outputs")
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("trees", part_trees), ("refusals", part_refusals), ("real", part_real)]
