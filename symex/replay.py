"""
Re-execute a counterexample on the real code of /repo, without proxies and without a solver.

usage: replay.py FILE.json        prints REPRODUCED / NOT-REPRODUCED, exit 1 / 0
"""

import json
import os
import signal
import sys
import traceback

sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def attempt(case, witness, native, limit):
    """-> (kind, message): kind in ok, violation, exception, timeout, divergence, prune"""
    from symex import core
    from symex import engine as E

    def onalarm(sig, frm):
        raise E.PathTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        ctx, exc = E.run_concrete(case.run, witness, native)
    except E.PathTimeout:
        return "timeout", "no result within %ss" % limit, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if exc is None:
        return "ok", "", ctx
    if isinstance(exc, E.PropertyViolation):
        return "violation", exc.msg, ctx
    if isinstance(exc, E.PathTimeout):
        return "timeout", "no result within %ss" % limit, ctx
    if isinstance(exc, E.Divergence):
        return "divergence", str(exc), ctx
    if isinstance(exc, E.Prune):
        return "prune", "", ctx
    if isinstance(exc, E.EngineError):
        return "engine", str(exc), ctx
    return "exception", core.describe(exc) + "\n" + "".join(traceback.format_exception(exc)[-6:]), ctx


def judge(case, witness, kind, limit=20):
    """Does a counterexample of this kind show on the real code?  Returns (bool, text).

    Only what shows with plain ints and floats counts; rounding artefacts of the real-number model
    do not.  (Witnesses are chosen with short binary fractions so that a real violation does.)"""
    n = attempt(case, witness, True, limit)
    if n[0] in ("violation", "exception"):
        return True, f"[native] {n[0]}: {n[1]}"
    if n[0] == "timeout" and kind == "timeout":
        return True, f"[native] hang: {n[1]}"
    m = attempt(case, witness, "apart", limit)
    if m[0] in ("violation", "exception"):
        return True, f"[native, labels shifted by a constant so that equal labels are distinct objects] {m[0]}: {m[1]}"
    return False, f"native: {n[0]} {n[1]}"


def main():
    from symex import core

    d = json.load(open(sys.argv[1]))
    mod = core.load_check(d["property"])
    case = core.find_case(mod, d["case"])
    if d["kind"] == "unreachable":
        import random
        import time

        from symex import engine as E

        rng, t0, n = random.Random(7), time.time(), 0
        while n < 5000 and time.time() - t0 < 60:
            n += 1
            if d["outcome"] in E.sample(case.run, rng).covered:
                print("NOT-REPRODUCED", d["property"], "the outcome occurs:", d["outcome"])
                sys.exit(0)
        print(f"REPRODUCED {d['property']} case={d['case']}: {d['outcome']} never occurs, neither on any path nor in {n} random runs")
        sys.exit(1)
    if d["kind"] == "distribution":
        import random
        import time

        from symex import engine as E

        rng, t0, n, hit = random.Random(7), time.time(), 0, 0
        while n < 40000 and time.time() - t0 < 60:
            n += 1
            hit += d["outcome"] in E.sample(case.run, rng).covered
        p = d["expected"]
        sd = max((p * (1 - p) / n) ** 0.5, 1e-9)
        off = abs(hit / n - p) / sd
        ok = off > 4.5
        print(f"{'REPRODUCED' if ok else 'NOT-REPRODUCED'} {d['property']} case={d['case']}: {d['outcome']} occurs in {hit} of {n} "
              f"random runs; expected probability {p:.5f}, computed {d['found']:.5f}")
        sys.exit(1 if ok else 0)
    ok, text = judge(case, d["witness"], d["kind"])
    print(("REPRODUCED " if ok else "NOT-REPRODUCED ") + d["property"] + " case=" + d["case"])
    print(text)
    sys.exit(1 if ok else 0)


if __name__ == "__main__":
    main()
