"""Shared machinery of the monitors: verdict discipline, evidence, replay files, known findings.

Verdicts are three-valued: VIOLATION (exit 1), held on what was observed (exit 0),
inconclusive (exit 3: a monitor was starved of events, or a time-out)."""

import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.environ.get("VERIF_WORK") or "/tmp"


class StopCheck(Exception):
    pass


class Inconclusive(Exception):
    pass


def _js(o):
    import numpy as np

    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, bytes):
        return o.decode("latin1")
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    if hasattr(o, "to_dict"):
        try:
            return o.to_dict("list")
        except TypeError:
            return o.to_dict()
    return repr(o)


def dumps(o):
    return json.dumps(o, default=_js)


def digest(*a):
    return hashlib.sha1(dumps(a).encode()).hexdigest()[:16]


class Check:
    MAXV = 5

    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.events = {}
        self.needs = {}
        self.viol = []
        self.known_hits = {}
        self.known = load_known(pid)
        self.ctx = None

    # ---- workload sizing -------------------------------------------------
    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *salt):
        import numpy as np

        h = hashlib.sha256(dumps([self.seed, self.pid, list(salt)]).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "big"))

    def elapsed(self):
        return time.time() - self.t0

    # ---- recording -------------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            d = digest(key)
            if d not in self.seen:
                self.seen.add(d)
                if len(self.samples) < 6 and (len(self.seen) in (1, 2, 5, 17, 63, 210)):
                    self.samples.append(sample if sample is not None else key)

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def need(self, name, n=1):
        """The deciding monitor must have seen at least n events `name`."""
        self.needs[name] = n

    # ---- verdicts --------------------------------------------------------
    def violation(self, msg, witness=None, mech=None):
        if mech is not None and mech in self.known:
            self.known_hits[mech] = self.known_hits.get(mech, 0) + 1
            return
        self.viol.append((msg, witness, mech))
        if len(self.viol) >= self.MAXV:
            raise StopCheck()

    def ensure(self, cond, msg, witness=None, mech=None):
        self.ev("oracle_verdicts")
        if not bool(cond):
            self.violation(msg, witness() if callable(witness) else witness, mech)
            return False
        return True

    def call(self, fn, *a, **k):
        """Run code under test; returns (result, exception-or-SystemExit)."""
        try:
            return fn(*a, **k), None
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa
            if isinstance(e, (StopCheck, Inconclusive, WatchDog)):
                raise
            return None, e

    def must(self, fn, *a, _w=None, **k):
        """Run code under test on a valid input: raising is a violation."""
        r, e = self.call(fn, *a, **k)
        if e is not None:
            if raised_in_repo(e):
                self.violation(
                    f"{getattr(fn, '__name__', fn)} failed on a valid input: {type(e).__name__}: {str(e)[:300]}",
                    {"case": _w, "trace": traceback.format_exception(e)[-6:]},
                )
                raise SkipCase()
            raise e
        return r

    # ---- finish ----------------------------------------------------------
    def write_evidence(self, starved):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.seen),
            "rule": self.rule,
            "samples": json.loads(dumps(self.samples[:6] or ["none"])),
            "events": dict(sorted(self.events.items())),
            "known_findings_hit": self.known_hits,
            "starved_monitors": starved,
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            f.write(dumps(ev))
            f.write("\n")

    def finish(self):
        starved = [f"{k}: {self.events.get(k, 0)} < {v}" for k, v in self.needs.items() if self.events.get(k, 0) < v]
        if self.evaluations == 0:
            starved.append("no case was run")
        self.write_evidence(starved)
        for m, c in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.pid} {self.known[m]} (observed {c}x in this run)")
        if self.viol:
            d = os.path.join(VERIF, "replays", self.pid)
            os.makedirs(d, exist_ok=True)
            for i, (msg, w, mech) in enumerate(self.viol):
                p = os.path.join(d, f"{self.tier}-seed{self.seed}-{i}.json")
                with open(p, "w") as f:
                    f.write(dumps({"property": self.pid, "seed": self.seed, "tier": self.tier, "message": msg,
                                   "mechanism": mech, "witness": w}))
                print(f"{self.pid}: {msg}")
                print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        if starved:
            print(f"INCONCLUSIVE property={self.pid}: " + "; ".join(starved))
            return 3
        print(
            f"HELD property={self.pid} tier={self.tier} seed={self.seed} evaluations={self.evaluations} "
            f"distinct={len(self.seen)} wall={self.elapsed():.1f}s events={dumps(self.events)}"
        )
        return 0


class SkipCase(Exception):
    """The current case already produced a violation: go on with the next."""


class WatchDog(BaseException):
    pass


def raised_in_repo(e):
    """True when the exception left code of /repo/src (not merely our call of it)."""
    tb = e.__traceback__
    files = [f.f_code.co_filename for f, _ in traceback.walk_tb(tb)]
    last_ver = max([i for i, f in enumerate(files) if f.startswith(VERIF)], default=-1)
    if last_ver == len(files) - 1 and files and files[-1] == __file__:
        return True  # left compiled (numba) code called directly by Check.call
    return any(f.startswith(os.path.join(REPO, "src")) for f in files[last_ver + 1 :])


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # property=<id> mech=<mechanism> <description>
            parts = line.split(None, 2)
            if len(parts) == 3 and parts[0] == f"property={pid}" and parts[1].startswith("mech="):
                out[parts[1][5:]] = parts[1] + " " + parts[2]
    return out
