"""Runs commands of sorcha in forked processes, with faults in the calls on the files of a folder.

Started with the fault library preloaded; reads one request per line and answers with the exit status."""
import ctypes
import json
import os
import sys


def serve():
    """Returns the request in the child, never in the parent."""
    lib = ctypes.CDLL(os.environ["LD_PRELOAD"])
    lib.fault_set.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    print("ready", flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            for k in ("out", "err"):
                fd = os.open(req[k], os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
                os.dup2(fd, 1 if k == "out" else 2)
                os.close(fd)
            fd = os.open(os.devnull, os.O_RDONLY)
            os.dup2(fd, 0)
            os.close(fd)
            os.chdir(req["cwd"])
            os.environ.update(req.get("env") or {})
            fd = os.open(req["trace"], os.O_CREAT | os.O_WRONLY | os.O_TRUNC | os.O_APPEND)
            f = req["fault"]
            lib.fault_set(f["prefix"].encode(), f["read"], f["kind"], f["at"], f["sticky"], fd)
            return req
        _, st = os.waitpid(pid, 0)
        print(json.dumps({"rc": -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)}), flush=True)
    os._exit(0)


def end(main):
    """Ends as the interpreter does, but without taking all the modules down (which takes a second)."""
    import atexit
    import gc
    import io
    import traceback

    code = 0
    try:
        main()
    except SystemExit as e:
        if e.code is not None:
            code = e.code if isinstance(e.code, int) else 1
            if not isinstance(e.code, int):
                print(e.code, file=sys.stderr)
    except BaseException:  # noqa
        code = 1
        traceback.print_exc()
    atexit._run_exitfuncs()
    gc.collect()
    for o in gc.get_objects():
        if isinstance(o, io.IOBase) and not o.closed and o not in (sys.stdout, sys.stderr, sys.stdin):
            try:
                o.close()
            except Exception:  # noqa
                pass
    for o in (sys.stdout, sys.stderr):
        try:
            o.flush()
        except Exception:  # noqa
            code = code or 120
    os._exit(code & 255)


if __name__ == "__main__":
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    import sorcha.sorcha, sorcha.des, tables, sqlite3, pandas  # noqa
    import sorcha.utilities.createResultsSQLDatabase  # noqa
    import shutil
    import numpy as np
    from vlib import pipeline as P
    from vlib import world as W

    # compiled functions are compiled once, here
    for _s in ("rubin_sim", "DES"):
        _d = os.path.join(os.environ["VERIF_WORK"], "warm%d" % os.getpid())
        _w = P.make(np.random.default_rng(5), _s, n=6, nights=3, pad_vis=5, name_kind="plain")
        P.write(_w, _d)
        try:
            P.run(_w, os.path.join(_d, "o"), **({} if _s == "DES" else {"LINKINGFILTER": {"SSP_detection_efficiency": "1.0", "SSP_number_observations": "2", "SSP_separation_threshold": "0.5",
                  "SSP_maximum_time": "0.0625", "SSP_number_tracklets": "1", "SSP_track_window": "15", "SSP_night_start_utc": "16.0", "drop_unlinked": "False"}}))
        except BaseException:  # noqa
            pass
        shutil.rmtree(_d)
    import gc
    import logging

    logging.root.handlers.clear()
    logging.root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    gc.collect()
    gc.freeze()
    _req = serve()
    sys.argv = _req["argv"]
    _m = importlib.import_module(_req["module"])
    end(_m.main)
