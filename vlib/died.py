"""The process under test was ended by a fatal signal of its own making: that is a failure of the code, not of the check."""
import os
import signal
import sys

from vlib import common


def main():
    pid, rc = sys.argv[1], int(sys.argv[2])
    import importlib

    ck = importlib.import_module("checks." + pid.lower()).make()
    stack = ""
    p = os.path.join(os.environ["VERIF_WORK"], "stack.txt")
    if os.path.exists(p):
        stack = open(p, errors="replace").read()[:4000]
    ck.evaluations = max(ck.evaluations, 1)
    try:
        ck.violation(
            f"the code under test crashed the interpreter ({signal.Signals(rc - 128).name}) on a valid workload",
            {"stack": stack.splitlines()},
        )
    except common.StopCheck:
        pass
    return ck.finish()


sys.exit(main())
