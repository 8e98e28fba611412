import faulthandler
import importlib
import json
import os
import signal
import sys
import traceback
import logging

from vlib import common


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        r = json.load(open(sys.argv[3]))
        os.environ["VERIF_SEED"] = str(r["seed"])
        os.environ["VERIF_TIER"] = r["tier"]
        print("replaying:", r["message"])
        print("witness:", json.dumps(r["witness"])[:4000])
    logging.disable(logging.CRITICAL)
    faulthandler.enable(file=open(os.path.join(os.environ["VERIF_WORK"], "stack.txt"), "w"), all_threads=False)

    def onalarm(*a):
        raise common.WatchDog()

    signal.signal(signal.SIGALRM, onalarm)
    tier = os.environ.get("VERIF_TIER", "quick")
    signal.alarm(840 if tier == "quick" else 7200)
    mod = importlib.import_module("checks." + pid.lower())
    ck = mod.make()
    import sorcha

    if not os.path.realpath(sorcha.__file__).startswith("/repo/src/"):
        print("sorcha is not imported from /repo/src:", sorcha.__file__)
        sys.stdout.flush()
        os._exit(2)
    code = 2
    try:
        for name, part in mod.parts():
            try:
                part(ck)
            except common.SkipCase:
                pass
        code = ck.finish()
    except common.StopCheck:
        code = ck.finish()
    except common.Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        code = 1 if ck.viol and ck.finish() == 1 else 3
    except common.WatchDog:
        traceback.print_exc(limit=8)
        print(f"INCONCLUSIVE property={pid}: watchdog time-out")
        code = 1 if ck.viol and ck.finish() == 1 else 3
    except BaseException as e:
        if common.raised_in_repo(e):
            # every case of the workload is a valid input, so the code must not fail on it
            tr = traceback.format_exception(e)
            try:
                ck.violation(
                    f"the code under test failed on a valid workload: {type(e).__name__}: {str(e)[:300]}",
                    {"trace": tr[-8:]},
                )
            except common.StopCheck:
                pass
            code = ck.finish()
        else:
            traceback.print_exc()
            code = 2
            if ck.viol:
                code = ck.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


main()
