"""C26: input files are read back exactly as written."""
import os
import sqlite3
import warnings

import numpy as np
import pandas as pd

from vlib.common import Check, SkipCase
from vlib import pipeline as P
from vlib import world as W

EPH = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
       "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
       "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]
EL = {"KEP": ["a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"], "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"],
      "CART": ["x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"]}


def make():
    ck = Check(
        "C26",
        "Each case is one generated input file (format, separator, layout, identifiers) and one history of block reads and identifier reads on one reader "
        "object, every returned table compared row by row with the generated rows; or one set of files read through the combined reader. "
        "Non-trivial = at least one row was returned.",
        ["identifiers that are themselves missing-value markers ('NA', 'nan', 'null', ...) or contain line breaks are not generated",
         "blank lines between or after the rows may be refused by identifier reads (documented), but must never shift rows",
         "numbers are compared to 2 units in the last place"],
    )
    for f in ("csv", "whitespace", "hdf5", "sqlite"):
        ck.need("files_" + f, 20)
    ck.need("rows_compared", 9000)
    ck.need("block_reads", 800)
    ck.need("object_reads", 500)
    ck.need("absent_ids_requested", 100)
    ck.need("cached_readers", 60)
    ck.need("comment_lines", 60)
    ck.need("blank_lines", 30)
    ck.need("numeric_ids", 30)
    ck.need("appended_hdf5", 10)
    ck.need("malformed_refused", 40)
    ck.need("combined_histories", 30)
    ck.need("combined_rows", 500)
    return ck


def ids(rng, n, sep):
    k = rng.integers(7)
    if k == 0:
        u = [f"{z:05d}" for z in rng.permutation(9999)[:n]]
    elif k == 1:
        u = [f"{a + 1}e{b}" for a, b in zip(rng.permutation(max(900, 2 * n))[:n], rng.integers(0, 4, n))]
    elif k == 2:  # numbers which are equal but spelled differently
        u = [f"{a // 3}{['', '.0', '.00'][a % 3]}" for a in rng.permutation(3 * n)[:n]]
    elif k == 3:
        pre = ["#", "o,b", "(1) A", "x\"y", "é", "ObjID", "TRUE", "-"] if sep == "csv" else ["#", "é", "ObjID", "True", "-", "a,b"]
        if sep == "hdf5":
            pre = ["#", "é", "o b", "True", "-", "x" * 20]
        u = [pre[a % len(pre)] + str(a) for a in rng.permutation(max(999, 2 * n))[:n]]
    elif k == 4:
        u = [["True", "False", "1", "0", "1.", "01", "1e0", "+1", "inf", "-0"][i] if i < 10 else f"m{i}" for i in range(n)]
        if sep in ("hdf5",):
            u = [f"s{x}" for x in u]
    elif k == 5:  # words which stand for missing values elsewhere
        w = ["NA", "null", "None", "nan", "NULL", "N/A", "n/a", "NaN", "-nan", "<NA>", "#NA", "1.#QNAN"]
        u = [str(z) for z in rng.permutation(w + [f"NA{z}" for z in range(n)])[:n]]
        if sep == "hdf5":
            u = [f"s{x}" for x in u]
    else:
        u = [f"S{z:05x}" + ("_" + "q" * int(rng.integers(0, 9))) for z in rng.permutation(10 ** 5)[:n]]
    return [str(x) for x in u], k


def number(rng, n):
    k = rng.integers(5)
    if k == 0:
        return rng.normal(0, 10, n)
    if k == 1:
        return rng.integers(-10 ** 6, 10 ** 6, n)
    if k == 2:
        return 10.0 ** rng.uniform(-12, 12, n) * rng.choice([-1, 1], n)
    if k == 3:
        return rng.integers(0, 5, n) + 0.0
    return 60000 + rng.random(n) * 3650


def table(rng, kind, sep, big=False):
    n = int(rng.integers(1500, 3000)) if big else int(rng.choice([0, 1, 2, 3, 7, 20, 60], p=[.04, .1, .1, .1, .2, .26, .2]))
    u, ik = ids(rng, max(n, 1), sep)
    if kind == "orbit":
        oid = u[:n]
        f = str(rng.choice(list(EL)))
        df = pd.DataFrame({"ObjID": pd.Series(oid, dtype=object), "FORMAT": rng.choice(["", "B"]) + f})
        for c in EL[f]:
            df[c] = number(rng, n)
        if f != "CART":
            df["e"] = rng.uniform(0, 0.95, n)
            df[EL[f][0]] = rng.uniform(0.1, 50, n)
        if n:
            o = list(df.columns[1:])
            df = df[["ObjID"] + [o[i] for i in rng.permutation(len(o))]]
        if not n:
            df = df.astype({c: float for c in EL[f]})
    elif kind == "eph":
        oid = rng.choice(np.array(u, object), n)
        df = pd.DataFrame({"ObjID": pd.Series(oid, dtype=object)})
        o = [EPH[i] for i in rng.permutation(np.arange(1, len(EPH)))] if rng.random() < .5 else EPH[1:]
        for c in o:
            df[c] = number(rng, n)
        if rng.random() < .5:
            df["fieldJD_TDB"] = number(rng, n)
        if rng.random() < .3:
            df["V(H=0)"] = number(rng, n)
    else:
        oid = u[:n] if rng.random() < .5 else list(rng.choice(np.array(u, object), n))
        df = pd.DataFrame({"ObjID": pd.Series(oid, dtype=object)})
        for c in ["H_r", "g-r", "GS", "c4", "c5"][: int(rng.integers(1, 6))]:
            df[c] = number(rng, n)
        if rng.random() < .3:
            df["NAME"] = rng.choice(["alpha", "b2", "z_z", "KEP"], n) if n else pd.Series([], dtype=object)
    return df, ik


def fmt(v):
    return repr(v.item()) if isinstance(v, np.generic) else str(v)


def put_text(rng, path, df, sep, blanks, pre):
    """Own writer. Returns (number of lines before the header, number of blank lines among the rows)."""
    nl = "\r\n" if rng.random() < .15 else "\n"
    if sep == "whitespace":
        j = str(rng.choice([" ", "\t", "   "]))
        q = str
    else:
        j = ","

        def q(s):
            return '"' + s.replace('"', '""') + '"' if ("," in s or '"' in s) else s
    hj = j
    if sep != "whitespace" and rng.random() < .2:
        hj = ", "
    lines = []
    for _ in range(pre):
        lines.append(str(rng.choice(["", "# made by hand", "# a,b,c,d,e,f,g,h,i,j,k,l", "#", "# ObjID comes next", "1,2,3", "x y z 1 2 3 4 5 6 7 8 9 0 1 2 3"])))
    head = len(lines)
    lines.append(hj.join(df.columns))
    nb = 0
    for row in df.itertuples(index=False):
        if blanks and rng.random() < .3:
            lines.append(str(rng.choice(["", "", "  "])) if sep == "whitespace" else "")
            nb += 1
        lines.append(j.join(q(fmt(v)) for v in row))
    if blanks and rng.random() < .5:
        k = int(rng.integers(1, 3))
        lines += [""] * k
        nb += k
    text = nl.join(lines) + (nl if (rng.random() < .8 or nb or not len(df)) else "")
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    return head, nb


def rows(df, cols):
    return [tuple(r) for r in df[cols].itertuples(index=False)]


def same(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if isinstance(a, str) or a is None:
        return False
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 2 * np.spacing(abs(b))


def compare(ck, what, got, want, cols, w, ordered=True):
    if not ck.ensure(set(got.columns) == set(cols), f"{what}: columns {sorted(got.columns)[:30]} instead of {sorted(cols)[:30]}", w):
        return
    g, x = rows(got, cols), rows(want, cols)
    if not ck.ensure([r[0] for r in g] == [r[0] for r in x] if ordered else sorted(r[0] for r in g) == sorted(r[0] for r in x),
                     f"{what}: identifiers {[r[0] for r in g][:12]} instead of {[r[0] for r in x][:12]}", w):
        return
    if not ordered:
        g, x = sorted(g, key=lambda r: (r[0], [float(z) if not isinstance(z, str) else 0. for z in r[1:]])), sorted(
            x, key=lambda r: (r[0], [float(z) if not isinstance(z, str) else 0. for z in r[1:]]))
    ck.ev("rows_compared", len(g))
    for i, (a, b) in enumerate(zip(g, x)):
        for c, p, r in zip(cols, a, b):
            if not same(p, r):
                ck.ensure(False, f"{what}: row {i} ({b[0]}) column {c}: {p!r} instead of {r!r}", w)
                return
    ck.ensure(True, what)


def histories(ck):
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.DatabaseReader import DatabaseReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    from sorcha.readers.HDF5Reader import HDF5DataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    for i in range(ck.n(480, 2400)):
        rng = ck.rng("hist", i)
        store = ["csv", "whitespace", "hdf5", "csv", "whitespace", "sqlite"][i % 6]
        kind = str(rng.choice(["param", "orbit", "eph"])) if store in ("csv", "whitespace") else str(rng.choice(["param", "eph"]))
        if store == "sqlite":
            kind = "param"
        big = i % 31 == 30
        df, ik = table(rng, kind, store, big)
        if store == "hdf5" and not len(df):
            continue  # pandas stores nothing for an empty table
        cached = bool(rng.random() < .3)
        blanks, pre, head, nb = False, 0, 0, 0
        hdr = {}
        path = W.tmp({"hdf5": ".h5", "sqlite": ".db"}.get(store, ".csv"))
        try:
            if store in ("csv", "whitespace"):
                blanks, pre = bool(rng.random() < .25), int(rng.choice([0, 0, 1, 2, 5, 60]))
                head, nb = put_text(rng, path, df, store, blanks, pre)
                name = "comma" if store == "csv" and rng.random() < .3 else store
                if kind != "eph" and rng.random() < .3:
                    hdr = {"header": head}
                if kind == "eph":
                    mk = lambda **k: EphemerisDataReader(path, name, **k)
                elif kind == "orbit":
                    mk = lambda **k: OrbitAuxReader(path, name, **hdr, **k)
                else:
                    mk = lambda **k: CSVDataReader(path, name, **hdr, **k)
            elif store == "hdf5":
                os.unlink(path)
                cut = np.sort(rng.integers(0, len(df) + 1, int(rng.integers(0, 4)))) if len(df) else []
                pieces = [p for p in np.split(np.arange(len(df)), cut) if len(p)] or [np.arange(len(df))]
                if ik == 0 and rng.random() < .3 and len(df):  # stored as integers
                    df["ObjID"] = [str(int(z)) for z in df["ObjID"]]
                    out = df.astype({"ObjID": "int64"})
                else:
                    out = df.astype({"ObjID": str})
                for p in pieces:
                    q = out.iloc[p].reset_index(drop=True) if rng.random() < .7 else out.iloc[p]
                    q.to_hdf(path, key="data", format="table", append=True, data_columns=True, 
                             min_itemsize={c: 60 for c in ("ObjID", "NAME") if c in q and q[c].dtype.kind != "i"} or None)
                ck.ev("appended_hdf5", len(pieces) > 1)
                if kind == "eph":
                    mk = lambda **k: EphemerisDataReader(path, str(rng.choice(["h5", "hdf5", "HDF5"])), **k)
                else:
                    mk = lambda **k: HDF5DataReader(path, **k)
            else:
                con = sqlite3.connect(path)
                df = df.astype({"ObjID": str})
                df.to_sql("interm", con, index=False, if_exists="replace")
                con.close()
                df = df.sort_values("ObjID", kind="stable").reset_index(drop=True)
                mk = lambda **k: DatabaseReader(path, **k)
            cols = [c for c in df.columns]
            if kind == "eph":
                cols = [c for c in EPH]
            w = {"i": i, "store": store, "kind": kind, "cached": cached, "pre": head, "blank": nb, "table": df}
            rd = ck.must(mk, cache_table=cached, _w=w)
            log, seen = [], 0
            for _ in range(int(rng.integers(2, 9))):
                n = len(df)
                if rng.random() < .55:
                    st = int(rng.choice([0, int(rng.integers(0, n + 1)), n // 2]))
                    size = [None, 1, 2, int(rng.integers(1, n + 3)), n, n + 5, 1000][int(rng.integers(7))]
                    if size == 0:
                        size = 1
                    if st >= n and n and rng.random() < .8:
                        st = n - 1
                    if store == "sqlite" and not cached and size is None:
                        st = 0
                    got, e = ck.call(rd.read_rows, st, size)
                    want = df.iloc[st: None if size is None else st + size]
                    what = f"read_rows({st},{size})"
                    ck.ev("block_reads")
                    allowed = False
                else:
                    pool = list(pd.unique(df["ObjID"]))
                    k = int(rng.integers(0, min(len(pool), 1500 if big else 8) + 1))
                    sel = [str(x) for x in rng.choice(np.array(pool, object), k, replace=False)] if k else []
                    if rng.random() < .4:
                        sel.append("absent-object")
                        ck.ev("absent_ids_requested")
                    if rng.random() < .2 and sel:  # looks like a numeric twin
                        t = sel[0] + ".0" if sel[0].isdigit() else sel[0].lower() + "~"
                        if t not in pool:
                            sel.append(t)
                    got, e = ck.call(rd.read_objects, sel)
                    want = df[df["ObjID"].isin(sel)]
                    what = f"read_objects({sel[:6]})"
                    ck.ev("object_reads")
                    allowed = nb > 0 and not cached
                log.append(what)
                what = f"{store}/{kind}{'/cached' if cached else ''}: {what}"
                if e is not None:
                    ck.ensure(allowed and isinstance(e, SystemExit), f"{what} failed on a well-formed file ({head} lines before the header): {type(e).__name__} {str(e)[:160]}",
                              dict(w, history=log))
                    ck.ev("blank_refused", allowed)
                    continue
                compare(ck, what, got, want, cols, dict(w, history=log), ordered=store != "sqlite")
                seen += len(got)
                if len(got) and rng.random() < .3:  # the caller owns what it was given
                    got = got.copy() if rng.random() < .5 else got
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        got["ObjID"] = "overwritten"
            ck.case([i, log, cols], nontrivial=seen > 0, sample=[store, kind, cached, head, nb, log[:4]])
            ck.ev("large_files", big)
            ck.ev("files_" + store)
            ck.ev("cached_readers", cached)
            ck.ev("comment_lines", head > 0)
            ck.ev("blank_lines", nb > 0)
            ck.ev("numeric_ids", ik in (0, 1, 2, 4))
        except SkipCase:
            pass
        finally:
            if os.path.exists(path):
                os.unlink(path)


def malformed(ck):
    """Files whose rows do not fit their header, or whose header does not fit the reader."""
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    for i in range(ck.n(120, 600)):
        rng = ck.rng("bad", i)
        sep = ["csv", "whitespace"][i % 2]
        kind = str(rng.choice(["param", "orbit", "eph"]))
        df, ik = table(rng, kind, sep)
        if len(df) < 2 or ik == 3:
            continue
        j = "," if sep == "csv" else " "
        head = j.join(df.columns)
        body = [j.join(fmt(v) for v in r) for r in df.itertuples(index=False)]
        fault = ["extra_all", "extra_one", "no_id", "wrong_sep", "empty", "names_with_spaces", "only_id"][int(rng.integers(7))]
        if fault == "extra_all":
            full = sep == "whitespace" or rng.random() < .5
            body = [b + j + ("7" if full else "") for b in body]
        elif fault == "extra_one":
            k = int(rng.integers(len(body)))
            body[k] += j + "7"
            if k == 0 and len(body) > 1:
                body[1] += j + "7"
        elif fault == "names_with_spaces":
            if sep == "csv":
                continue
            body = ["2015 " + b for b in body]
        elif fault == "no_id":
            head = head.replace("ObjID", "objid", 1) if rng.random() < .5 else head.replace("ObjID", "ObjIDs", 1)
        elif fault == "wrong_sep":
            o = {"csv": "whitespace", "whitespace": "csv"}[sep]
            head, body = (x if isinstance(x, str) else x for x in (head, body))
        elif fault == "empty":
            head, body = "", []
        else:
            head, body = "ObjID", [b.split(j)[0] for b in body]
        path = W.tmp(".csv")
        with open(path, "w") as f:
            f.write("\n".join([head] + body) + "\n")
        full = True if fault != "extra_all" else full
        use = {"csv": "whitespace", "whitespace": "csv"}[sep] if fault == "wrong_sep" else sep
        w = {"i": i, "fault": fault, "sep": sep, "kind": kind, "head": head, "body": body[:4]}
        try:
            def go():
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    rd = EphemerisDataReader(path, use) if kind == "eph" else (OrbitAuxReader if kind == "orbit" else CSVDataReader)(path, use)
                    m = i % 4
                    if m == 0:
                        return rd.read_rows()
                    if m == 1:
                        return pd.concat([rd.read_rows(a, 1 + i % 3) for a in range(0, len(df), 1 + i % 3)])
                    if m == 2:
                        return rd.read_objects([str(x) for x in df["ObjID"]])
                    return rd.read_rows(1, 1) if len(df) > 1 else rd.read_rows()

            got, e = ck.call(go)
            if e is None:
                # not refused: then what was read must be what the file says
                if fault == "names_with_spaces" and i % 4 == 2:
                    ck.ensure(len(got) == 0, f"{kind} file with spaces in its identifiers returned rows for other identifiers", w)
                else:
                    sub = (fault == "extra_all" and not full) or (fault == "extra_one" and i % 4 == 3)
                    if ck.ensure(sub, f"{kind} file ({sep}) with fault {fault} was read without complaint as {list(got['ObjID'])[:4]}", w):
                        compare(ck, f"{kind} file ({sep}) with fault {fault}", got, df if i % 4 != 3 else df.iloc[1:2],
                                EPH if kind == "eph" else list(df.columns), w)
                        ck.ev("trailing_separators")
            else:
                ck.ensure(isinstance(e, (SystemExit, Exception)), "refused", w)
                ck.ev("malformed_refused")
            ck.case([i, fault, kind, sep], sample=[fault, kind, sep])
        except SkipCase:
            pass
        finally:
            os.unlink(path)


def combined(ck):
    """The combined reader: every ephemeris row once, with its own object's orbit and parameters."""
    from sorcha.readers.CombinedDataReader import CombinedDataReader
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    for i in range(ck.n(48, 300)):
        rng = ck.rng("comb", i)
        n = int(rng.integers(1, 25))
        u = P.names(rng, n)
        ax, ef = str(rng.choice(["csv", "whitespace"])), str(rng.choice(["csv", "whitespace", "hdf5"]))
        orb = pd.DataFrame({"ObjID": u, "FORMAT": "KEP"})
        for c in EL["KEP"]:
            orb[c] = rng.uniform(1, 50, n)
        orb["e"] = rng.uniform(0, .9, n)
        par = pd.DataFrame({"ObjID": u, "H_r": rng.uniform(10, 20, n), "g-r": rng.uniform(0, 1, n), "GS": rng.uniform(0, 1, n)})
        cpx = pd.DataFrame({"ObjID": u, "LCA": rng.uniform(0, 1, n)}) if rng.random() < .4 else None
        m = int(rng.integers(0, 80))
        eph = pd.DataFrame({"ObjID": rng.choice(np.array(u, object), m)})
        for c in EPH[1:]:
            eph[c] = number(rng, m) + 0.0
        d = W.tmpdir()
        try:
            sh = lambda t: t.iloc[rng.permutation(len(t))]
            P.put(d + "/o", sh(orb), ax)
            P.put(d + "/p", sh(par), ax)
            if cpx is not None:
                P.put(d + "/c", sh(cpx), ax)
            if len(eph) == 0 and ef == "hdf5":
                ef = "csv"
            P.put(d + "/e", eph, ef)
            eph_primary, gen = bool(rng.random() < .4), bool(rng.random() < .3)

            def new():
                r = CombinedDataReader(ephem_primary=eph_primary and not gen)
                if not gen:
                    r.add_ephem_reader(EphemerisDataReader(d + "/e", ef, cache_table=bool(i % 2)))
                r.add_aux_data_reader(OrbitAuxReader(d + "/o", ax))
                r.add_aux_data_reader(CSVDataReader(d + "/p", ax))
                if cpx is not None:
                    r.add_aux_data_reader(CSVDataReader(d + "/c", ax))
                r.check_aux_object_ids()
                return r

            w = {"i": i, "eph_primary": eph_primary, "generated": gen, "n": n, "m": m, "ax": ax, "ef": ef}
            r = ck.must(new, _w=w)
            out, steps = [], []
            for _ in range(400):
                size = [None, 1, 2, 3, 7, n, 100][int(rng.integers(7))]
                b = ck.must(r.read_aux_block if gen else r.read_block, block_size=size, _w=w)
                steps.append(size)
                if b is None:
                    break
                out.append(b)
            else:
                ck.ensure(False, "the combined reader never came to an end", w)
            got = pd.concat(out, ignore_index=True) if out else pd.DataFrame()
            aux = orb.merge(par, on="ObjID")
            if cpx is not None:
                aux = aux.merge(cpx, on="ObjID")
            want = aux if gen else eph.merge(aux, on="ObjID", how="left")
            if not len(want):
                ck.ensure(not len(got), "rows out of nothing", w)
                continue
            if not ck.ensure(set(got.columns) == set(want.columns), f"combined columns {sorted(set(got.columns) ^ set(want.columns))}", w):
                continue
            cols = list(want.columns)
            compare(ck, f"combined reader (blocks {steps[:8]})", got, want, cols, w, ordered=False)
            ck.ev("combined_histories")
            ck.ev("combined_rows", len(got))
            # identifiers which do not agree are refused, whatever the order of the files
            bad = par.copy()
            bad.loc[int(rng.integers(n)), "ObjID"] = "nobody"
            P.put(d + "/p", bad, ax)
            _, e = ck.call(new)
            ck.ensure(isinstance(e, SystemExit), f"different identifiers in the auxiliary files were accepted ({e!r})", w)
            ck.case([i, n, m, steps], sample=[n, m, ax, ef, eph_primary, gen, steps[:5]])
        except SkipCase:
            pass
        finally:
            import shutil

            shutil.rmtree(d, ignore_errors=True)


def parts():
    return [("histories", histories), ("malformed", malformed), ("combined", combined)]
