"""C23: a stored ephemeris can be used in place of generating it."""
import csv
import logging
import os
import re
import shutil
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W
from checks import c01
from checks.c26 import EPH, number, same

KEYS = ["ObjID", "FieldID"]


def make():
    ck = Check(
        "C23",
        "Each case is one history of ephemeris chunks written by the real writer in one format, read by an independent reader and by the real readers "
        "(whole, in blocks, by object), or one run that generates and stores its ephemeris followed by runs that read it instead. "
        "Non-trivial = at least one row was written.",
        ["pandas stores nothing for a table without rows, so an HDF5 ephemeris without any row is not judged", "identifiers that are missing-value markers or contain quotes/line breaks are not generated",
         "numbers are compared to 2 units in the last place (tables) and 1e-9 (whole runs)"],
    )
    for f in ("csv", "whitespace", "hdf5"):
        ck.need("histories_" + f, 20)
    ck.need("rows_compared", 3000)
    ck.need("empty_chunks", 20)
    ck.need("growing_identifiers", 10)
    ck.need("spaced_identifiers", 10)
    ck.need("replaced_runs", 6)
    ck.need("replaced_rows", 60)
    return ck


def chunk(rng, n, idlen, spaced):
    df = pd.DataFrame({"ObjID": pd.Series([("o" + str(z) + ("q" * int(rng.integers(0, idlen)))) if not spaced else f"{1900 + z % 200} Q{z}" for z in rng.integers(0, 9999, n)], dtype="string" if rng.random() < .3 else object)})
    df["FieldID"] = rng.integers(0, 10 ** 6, n)
    df["fieldMJD_TAI"] = 60000 + rng.random(n) * 3000
    df["fieldJD_TDB"] = df["fieldMJD_TAI"] + 2400000.5
    for c in EPH[3:]:
        df[c] = (number(rng, n) if rng.random() < .2 else rng.normal(0, 10.0 ** rng.integers(-8, 9), n)) + 0.0
    if rng.random() < .5:
        df.index = rng.permutation(n)
    return df


def tables(ck):
    from sorcha.ephemeris.simulation_driver import write_out_ephemeris_file
    from sorcha.readers.CombinedDataReader import CombinedDataReader
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    for i in range(ck.n(120, 700)):
        rng = ck.rng("t", i)
        fmt = ["csv", "whitespace", "hdf5"][i % 3]
        spaced = bool(rng.random() < .2)
        lens = np.sort(rng.integers(1, 30, 6)) if rng.random() < .6 else rng.integers(1, 30, 6)
        hist, empties = [], 0
        for j in range(int(rng.integers(1, 6))):
            n = int(rng.choice([0, 1, 2, 5, 20])) if i % 30 > 2 or j else int(rng.integers(2001, 5000))
            c = chunk(rng, n, int(lens[j]), spaced)
            empties += n == 0
            hist.append(c)
        want = pd.concat(hist, ignore_index=True)
        d = W.tmpdir()
        w = {"i": i, "format": fmt, "chunks": [len(c) for c in hist]}
        args = NS(pplogger=logging.getLogger("quiet"), loglevel=False)
        cfg = NS(input=NS(eph_format=fmt), output=NS(output_format=str(rng.choice(["csv", "sqlite3", "hdf5"]))))
        stem = os.path.join(d, str(rng.choice(["eph", "e.ph", "my ephemeris"])))
        try:
            before = [c.copy(deep=True) for c in hist]
            for c in hist:
                ck.must(write_out_ephemeris_file, c, stem, args, cfg, _w=w)
            for a, b in zip(hist, before):
                ck.ensure(a.equals(b), "writing changed the ephemeris in memory", w)
            path = stem + (".h5" if fmt == "hdf5" else ".csv")
            if not ck.ensure(os.listdir(d) == [os.path.basename(path)] or (not len(want) and fmt == "hdf5"), f"files written: {os.listdir(d)}", w):
                continue
            if not os.path.exists(path) or (fmt == "hdf5" and not len(want)):
                continue
            # an independent reader of the text formats
            if fmt != "hdf5":
                with open(path, newline="") as f:
                    rows = list(csv.reader(f, delimiter="," if fmt == "csv" else " "))
                ck.ensure(rows[0] == list(want.columns), f"heading {rows[0][:4]}", w)
                ck.ensure(sum(r[0] == "ObjID" for r in rows) == 1, "the heading appears more than once", w)
                ok = len(rows) - 1 == len(want)
                ck.ensure(ok, f"{len(rows) - 1} rows in the file instead of {len(want)}", w)
                if ok:
                    for r, x in zip(rows[1:], want.itertuples(index=False)):
                        if not all(a == b if isinstance(b, str) else same(float(a), b) for a, b in zip(r, x)):
                            ck.ensure(False, f"stored row {r[:4]} instead of {x[:4]}", w)
                            break
            else:
                raw = pd.read_hdf(path)
                ck.ensure(len(raw) == len(want) and list(raw["ObjID"].astype(str)) == list(want["ObjID"].astype(str)), f"{len(raw)} rows stored instead of {len(want)}", w)
            # the real readers
            rd = ck.must(EphemerisDataReader, path, fmt, cache_table=bool(rng.random() < .3), _w=w)

            def cmp(what, got, exp):
                if not ck.ensure(list(got.columns) == EPH and list(got["ObjID"]) == list(exp["ObjID"].astype(str)), f"{fmt}: {what}: {len(got)} rows instead of {len(exp)}", w):
                    return
                ck.ev("rows_compared", len(got))
                for c in EPH[1:]:
                    for a, b in zip(got[c], exp[c]):
                        if not same(a, b):
                            ck.ensure(False, f"{fmt}: {what}: {c} read as {a!r} instead of {b!r}", w)
                            return
                ck.ev("oracle_verdicts")

            cmp("whole file", ck.must(rd.read_rows, _w=w), want)
            size = int(rng.integers(1, 12)) if len(want) < 500 else int(rng.integers(500, 1500))
            got = [ck.must(rd.read_rows, a, size, _w=w) for a in range(0, len(want), size)]
            if got:
                cmp(f"blocks of {size}", pd.concat(got), want)
            pool = sorted(set(want["ObjID"].astype(str)))
            sel = [str(x) for x in rng.choice(np.array(pool, object), min(len(pool), 5), replace=False)] if pool else ["nobody"]
            cmp(f"objects {sel}", ck.must(rd.read_objects, sel, _w=w), want[want["ObjID"].isin(sel)])
            # used as external ephemeris next to the orbits and parameters
            if pool and not spaced:
                orb = pd.DataFrame({"ObjID": pool, "FORMAT": "COM"})
                for c in ("q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"):
                    orb[c] = rng.uniform(.1, 1, len(pool))
                P.put(d + "/o", orb, "csv")
                P.put(d + "/p", pd.DataFrame({"ObjID": pool[::-1], "H_r": 1.0}), "csv")
                r = CombinedDataReader()
                r.add_ephem_reader(EphemerisDataReader(path, fmt))
                r.add_aux_data_reader(OrbitAuxReader(d + "/o", "csv"))
                r.add_aux_data_reader(CSVDataReader(d + "/p", "csv"))
                out = []
                while True:
                    b = ck.must(r.read_block, block_size=size, _w=w)
                    if b is None:
                        break
                    out.append(b)
                got = pd.concat(out).sort_values(KEYS + ["fieldMJD_TAI"])
                exp = want.astype({"ObjID": str}).sort_values(KEYS + ["fieldMJD_TAI"])
                cmp(f"combined in blocks of {size}", got[EPH], exp)
            ck.case([i, w], nontrivial=len(want) > 0, sample=w)
            ck.ev("histories_" + fmt)
            ck.ev("empty_chunks", empties)
            ck.ev("growing_identifiers", len(hist) > 1)
            ck.ev("spaced_identifiers", spaced)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def replaced(ck):
    """Generate and store, then use what was stored."""
    for i in range(ck.n(3, 12)):
        rng = ck.rng("r", i)
        w, over, ar = c01.ar_world(rng, n=int(rng.choice([4, 6])), brute=bool(i % 2), survey="DES" if i % 3 == 2 else "rubin_sim")
        over["EXPERT"].update(randomization_on=str(rng.choice(["True", "False"])) if w.survey != "DES" else "False", default_snr_cut="False")
        d = W.tmpdir()
        try:
            for fmt in ("csv", "whitespace", "hdf5"):
                ax = "csv" if i % 2 else "whitespace"
                P.write(w, os.path.join(d, "in"), fmt, ax, rng=None)
                ch = int(rng.choice([1, 2, 100]))
                seed = int(rng.integers(1, 1 << 31))
                c = {"i": i, "format": fmt, "chunk": ch, "objects": len(w.ids)}
                o = {k: dict(v) for k, v in over.items()}
                o["INPUT"]["size_serial_chunk"] = str(ch)
                a = ck.must(P.run, w, os.path.join(d, "a"), eph_out="eph", ar=ar, seed=seed, _w=c, **o)
                ep = os.path.join(a.dir, "eph" + (".h5" if fmt == "hdf5" else ".csv"))
                if not os.path.exists(ep):
                    ck.ensure(a.out is None or not len(a.out), "no ephemeris was stored although there are observations", c)
                    continue
                keep = os.path.join(d, "stored" + os.path.splitext(ep)[1])
                shutil.move(ep, keep)
                w.files["input_ephemeris_file"] = keep
                o["INPUT"]["ephemerides_type"] = "external"
                o.pop("SIMULATION", None)
                b = ck.must(P.run, w, os.path.join(d, "b"), seed=seed, _w=c, **o)
                if a.out is not None:
                    a.out = a.out.drop(columns=[x for x in ("fieldJD_TDB", "q") if b.out is None or x not in b.out], errors="ignore")  # by-products of the generation
                c01.same_rows(ck, f"run with the stored {fmt} ephemeris", a.out, b.out, ["ObjID", "FieldID"] if a.out is not None and "FieldID" in a.out else c01.KEYS, c)
                ck.ensure(list(a.out["ObjID"]) == list(b.out["ObjID"]) if a.out is not None and b.out is not None else a.out is b.out, "rows in a different order", c)
                n = 0 if a.out is None else len(a.out)
                ck.case([c, n], n > 0, c)
                ck.ev("replaced_runs")
                ck.ev("replaced_rows", n)
        except SkipCase:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("tables", tables), ("replaced", replaced)]
