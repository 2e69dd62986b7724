"""
Driver:  run.py <PROPERTY> [quick|thorough] [--case NAME] [--jobs N] [--verbose]

Explores every case of a property's check symbolically (see engine.py) with a pool of workers,
replays counterexamples on the real code, writes evidence/<PROPERTY>.json.
exit 0: held on everything explored; 1: violation (VIOLATION line); 2: no answer.
"""

import argparse
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.append(VERIF)

SLICE_S = 1.5  # a worker hands back its unexplored prefixes after this long


# --------------------------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------------------------
def _monitor(functions):
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symex")
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith("/repo/gerrychain"):
            functions.add(f"{fn[6:]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def _norm(v, model, E):
    """Evaluate an observed value under the path's model, to plain comparable data."""
    if type(v) is E.Sym:
        return E._pyval(model.eval(v.e, model_completion=True))
    if isinstance(v, E.z3.ExprRef):
        return bool(E.z3.is_true(model.eval(v, model_completion=True)))
    if isinstance(v, dict):
        return sorted(((_norm(k, model, E), _norm(x, model, E)) for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return sorted((_norm(x, model, E) for x in v), key=repr)
    if isinstance(v, (list, tuple)):
        return [_norm(x, model, E) for x in v]
    return E._flt(v)


def _same(a, b):
    from fractions import Fraction
    import math

    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    num = (int, float, Fraction)
    if isinstance(a, num) and isinstance(b, num):
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        return math.isclose(fa, fb, rel_tol=1e-6, abs_tol=1e-6)
    return a == b


def worker(pid, inbox, outbox, opts):
    from symex import core
    from symex import engine as E
    from symex import replay

    if opts.get("mem"):
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (opts["mem"], opts["mem"]))
    try:
        mod = core.load_check(pid)
    except BaseException:
        outbox.put(("fatal", traceback.format_exc()))
        return
    functions = set()
    _monitor(functions)

    def onalarm(sig, frm):
        raise E.PathTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    seen_paths = {}
    ex_case = None
    ex = None
    while True:
        unit = inbox.get()
        if unit is None:
            return
        uid, cname, prefixes, deadline = unit
        case = core.find_case(mod, cname)
        if ex_case != cname or ex is None or ex.st_paths_total > 4000:
            ex = E.Explorer(opts["query_ms"])
            ex.st_paths_total = 0
            ex_case = cname
        ex.st = E.Stats()
        ex.inconclusive = []
        ex.stack = [(p, None) for p in prefixes]
        findings = []
        mismatches = []
        t_end = min(time.time() + SLICE_S, deadline)
        first = True
        while ex.stack and (first or time.time() < t_end):
            first = False
            prefix, model = ex.stack.pop()
            signal.setitimer(signal.ITIMER_REAL, case.path_timeout)
            try:
                ctx, exc = ex.run_path(case.run, prefix, model)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except E.PathTimeout as e:  # fired while unwinding
                ex._new_solver()
                ex.last_trail = []
                ex.st.timeouts += 1
                continue
            except MemoryError:
                outbox.put(("fatal", "out of memory"))
                return
            st = ex.st
            ex.st_paths_total += 1
            kind = None
            msg = ""
            if exc is None:
                st.paths += 1
                for c in ctx.covered:
                    st.covers[c] = st.covers.get(c, 0) + 1
                if case.dist is not None:
                    st.real_draws += len(ctx.draws)
                    for c in ctx.covered:
                        if c.startswith("="):
                            st.mass[c] = st.mass.get(c, 0) + ctx.prob
                k = seen_paths[cname] = seen_paths.get(cname, 0) + 1
                if k <= opts["validate_first"] or k % opts["validate_every"] == 0:
                    signal.setitimer(signal.ITIMER_REAL, 20)
                    try:
                        m = ctx.get_model()
                        w = ctx.witness()
                        want = [(n, _norm(v, m, E)) for n, v in ctx.observed]
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        r = replay.attempt(case, w, False, 20)
                        if r[0] == "violation":
                            kind, msg = "violation", "(found by replay of a discharged path) " + r[1]
                            findings.append((kind, msg, w, None))
                            st.validation_mismatch += 1
                            mismatches.append({"case": cname, "what": msg, "witness": w})
                        elif r[0] == "divergence" and r[1] == "rounding":
                            pass
                        elif r[0] == "divergence" or r[0] == "timeout":
                            st.validation_mismatch += 1
                            mismatches.append({"case": cname, "what": r[0] + " " + r[1], "witness": w})
                        elif r[0] == "exception":
                            st.validation_mismatch += 1
                            mismatches.append({"case": cname, "what": r[1], "witness": w})
                            findings.append(("exception", r[1], w, None))
                        elif r[0] == "ok":
                            got = [(n, _norm(v, None, E)) for n, v in r[2].observed]
                            if all(_same(a[1], b[1]) and a[0] == b[0] for a, b in zip(want, got)) and len(want) == len(got):
                                st.validated += 1
                            else:
                                st.validation_mismatch += 1
                                mismatches.append({"case": cname, "what": f"symbolic {want} concrete {got}", "witness": w})
                        if len(st.samples) < 3:
                            st.samples.append({"case": cname, "vars": w["vars"], "picks": w["picks"],
                                               "observed": [(n, repr(v)[:200]) for n, v in want][:8]})
                    except (E.Control, Exception) as e:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        st.validation_mismatch += 1
                        mismatches.append({"case": cname, "what": "validation: " + core.describe(e)})
                continue
            if isinstance(exc, E.Prune):
                st.pruned += 1
                if ctx.cut:
                    st.cut += 1
                continue
            if isinstance(exc, E.EngineError):
                st.unknown += 1
                ex.inconclusive.append("engine: " + str(exc))
                if opts["verbose"]:
                    traceback.print_exception(exc)
                # the path left what is modelled: let the real code decide about its inputs
                if len(findings) < 4:
                    try:
                        signal.setitimer(signal.ITIMER_REAL, 20)
                        w = ctx.witness(nice=True)
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        findings.append(("unmodelled", str(exc), w, None))
                    except (E.Control, Exception):
                        signal.setitimer(signal.ITIMER_REAL, 0)
                ex._new_solver()
                ex.last_trail = []
                continue
            try:
                signal.setitimer(signal.ITIMER_REAL, 60)
                w = ctx.witness(nice=True)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except (E.Control, Exception) as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if not isinstance(e, E.Prune):
                    st.unknown += 1
                    ex.inconclusive.append("no witness: " + core.describe(e))
                continue
            where = None
            if isinstance(exc, E.PropertyViolation):
                kind, msg = "violation", exc.msg
            elif isinstance(exc, E.PathTimeout):
                kind, msg = "timeout", "path did not finish"
                st.timeouts += 1
                ex._new_solver()
                ex.last_trail = []
            else:
                kind = "exception"
                where = core.origin(exc)
                msg = core.describe(exc)
                if opts["verbose"]:
                    traceback.print_exception(exc)
            if len(findings) < 4:
                findings.append((kind, msg, w, where))
            else:
                st.unsupported += 1
        rest = [p for p, _ in ex.stack]
        ex.stack = []
        d = ex.st.as_dict()
        d["functions"] = sorted(functions)
        outbox.put(("done", uid, cname, rest, d, findings, list(ex.inconclusive), mismatches))


# --------------------------------------------------------------------------------------------
# driver
# --------------------------------------------------------------------------------------------
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--case", action="append")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    pid = a.pid
    t0 = time.time()
    budget = a.budget or (300 if tier == "quick" else 3000)
    deadline = t0 + budget

    from symex import core

    mod = core.load_check(pid)
    cases = [c for c in mod.CASES if tier == "thorough" or not c.thorough]
    if a.case:
        cases = [c for c in mod.CASES if any(x in c.name for x in a.case)]
    names = [c.name for c in mod.CASES]
    assert len(names) == len(set(names)), "duplicate case names"

    opts = dict(query_ms=15000 if tier == "quick" else 60000, validate_first=12, validate_every=50,
                verbose=a.verbose, mem=6 << 30)
    ctxm = mp.get_context("fork")
    outbox = ctxm.Queue()
    inboxes, procs = [], []
    jobs = max(1, min(a.jobs, 8))
    for _ in range(jobs):
        q = ctxm.Queue()
        p = ctxm.Process(target=worker, args=(pid, q, outbox, opts), daemon=True)
        p.start()
        inboxes.append(q)
        procs.append(p)

    from symex.engine import Stats

    total = Stats()
    per_case = {c.name: Stats() for c in cases}
    open_units = {c.name: 0 for c in cases}
    pending = []
    uid = 0
    for c in sorted(cases, key=lambda c: -c.weight):
        pending.append((c.name, [[]]))
    idle = list(range(jobs))
    busy = {}
    inconclusive, mismatches, unrepro, confirmed = [], [], [], []
    known_lines = []
    known_cases = set()
    known = [k for k in load_known() if k["property"] == pid]
    tried = {}
    fatal = None
    left = {}

    def handle(kind, msg, w, where, cname):
        """Replay on the real code in a fresh interpreter; report only what reproduces."""
        key = (cname, kind, str(msg).split("\n")[0][:80])
        n = tried.get(key, 0)
        if n >= 3 and kind == "unmodelled":
            return
        if n >= 3:
            total.unsupported += 1
            return
        tried[key] = n + 1
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{len(confirmed) + len(unrepro)}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "case": cname, "kind": kind, "message": msg, "where": where,
                       "witness": w}, f, indent=1)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "symex", "replay.py"), path],
                           capture_output=True, text=True, timeout=300)
        if r.returncode == 1 and "REPRODUCED" in r.stdout:
            for k in known:
                if k["case"] == cname and k["message"] in (msg + r.stdout):
                    known_cases.add(cname)
                    line = f"KNOWN-FINDING: property={pid} {k['what']}"
                    if line not in known_lines:
                        known_lines.append(line)
                    return
            confirmed.append((path, cname, kind, msg, r.stdout))
        elif kind != "unmodelled":
            unrepro.append({"case": cname, "kind": kind, "message": str(msg)[:300], "where": where,
                            "replay": (r.stdout + r.stderr)[-600:], "witness": w})
            total.unsupported += 1

    while (pending or busy) and not fatal:
        now = time.time()
        if now > deadline:
            for c, ps in pending:
                left[c] = left.get(c, 0) + len(ps)
            pending = []
            if not busy or now > deadline + 90:
                break
        while idle and pending:
            wkr = idle.pop()
            cname, ps = pending.pop(0)
            # spread a big chunk over idle workers
            if len(ps) > 1 and len(pending) < len(idle):
                half = len(ps) // 2
                pending.append((cname, ps[half:]))
                ps = ps[:half]
            uid += 1
            open_units[cname] += 1
            busy[uid] = (wkr, cname)
            inboxes[wkr].put((uid, cname, ps, deadline))
        try:
            m = outbox.get(timeout=1.0)
        except queue.Empty:
            for u, (wkr, cname) in list(busy.items()):
                if not procs[wkr].is_alive():
                    fatal = f"worker died (exit {procs[wkr].exitcode}) on {cname}"
            continue
        if m[0] == "fatal":
            fatal = m[1]
            break
        _, u, cname, rest, d, findings, inc, mm = m
        wkr, _ = busy.pop(u)
        idle.append(wkr)
        open_units[cname] -= 1
        total.merge(d)
        per_case[cname].merge(d)
        inconclusive += inc
        mismatches += mm
        if rest:
            pending.append((cname, rest))
        for kind, msg, w, where in findings:
            handle(kind, msg, w, where, cname)
            if confirmed:
                break
        if confirmed:
            break

    for q in inboxes:
        q.put(None)
    for p in procs:
        p.join(timeout=0.2)
        if p.is_alive():
            p.kill()

    missing = []
    if not confirmed and not fatal:
        for c in cases:
            if c.name in left:
                continue  # out of time: reported as unexplored, not as vacuous
            for lab in c.covers:
                if not per_case[c.name].covers.get(lab):
                    missing.append(f"{c.name}:{lab}")
            if per_case[c.name].paths == 0 and c.name not in known_cases:
                missing.append(f"{c.name}:no path completed")
    # outcomes that must be possible: every path was decided and none shows it
    if not confirmed and not fatal:
        for c in cases:
            s = per_case[c.name]
            gone = [r for r in c.reach + c.covers if not s.covers.get(r)]
            if gone and c.name not in left and not (s.unsupported or s.timeouts or s.unknown or s.concretised):
                if any(u["case"] == c.name for u in unrepro):
                    continue
                path = os.path.join(VERIF, "evidence", "replay", f"{pid}-reach-{c.name}.json")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as f:
                    json.dump({"property": pid, "case": c.name, "kind": "unreachable", "outcome": gone[0],
                               "all_unreachable": gone}, f, indent=1)
                r = subprocess.run([sys.executable, os.path.join(VERIF, "symex", "replay.py"), path],
                                   capture_output=True, text=True, timeout=300)
                if r.returncode == 1 and r.stdout.startswith("REPRODUCED"):
                    confirmed.append((path, c.name, "unreachable", f"an outcome that must be possible is not: {gone[0]}", r.stdout))
                else:
                    unrepro.append({"case": c.name, "kind": "unreachable", "message": gone[0], "where": None,
                                    "replay": (r.stdout + r.stderr)[-600:], "witness": None})
    # outcomes with a prescribed probability (real draws that no branch looks at change nothing)
    laws = {}
    if not confirmed and not fatal:
        for c in cases:
            s = per_case[c.name]
            if c.dist is None or c.name in left or not s.paths or (s.real_draws and (s.decisions or s.forced)) or s.pruned != s.cut or s.unsupported or s.timeouts or s.unknown:
                continue
            keys = sorted(set(c.dist) | set(s.mass))
            # the probability of the runs outside the draw limit may belong to any outcome
            rest = 1 - sum(s.mass.values()) if s.cut else 0
            bad = [k for k in keys if not s.mass.get(k, 0) <= c.dist.get(k, 0) <= s.mass.get(k, 0) + rest]
            laws[c.name] = {"outcomes": len(c.dist), "probability_outside_draw_limit": float(rest), "agrees": not bad}
            if bad:
                path = os.path.join(VERIF, "evidence", "replay", f"{pid}-dist-{c.name}.json")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                worst = max(bad, key=lambda k: abs(s.mass.get(k, 0) - c.dist.get(k, 0)))
                with open(path, "w") as f:
                    json.dump({"property": pid, "case": c.name, "kind": "distribution", "outcome": worst,
                               "expected": float(c.dist.get(worst, 0)), "found": float(s.mass.get(worst, 0))}, f, indent=1)
                r = subprocess.run([sys.executable, os.path.join(VERIF, "symex", "replay.py"), path],
                                   capture_output=True, text=True, timeout=300)
                msg = f"{worst} has probability {s.mass.get(worst, 0)} instead of {c.dist.get(worst, 0)}"
                if r.returncode == 1 and "REPRODUCED" in r.stdout:
                    confirmed.append((path, c.name, "distribution", msg, r.stdout))
                else:
                    unrepro.append({"case": c.name, "kind": "distribution", "message": msg, "where": None,
                                    "replay": (r.stdout + r.stderr)[-600:], "witness": None})
    cut = total.cut
    exhaustive = not (left or inconclusive or total.timeouts or total.unsupported or total.concretised
                      or fatal or confirmed or total.unknown)
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": total.paths,
            "transitions": total.decisions + total.choices,
            "traces_validated_against_impl": total.validated,
            "samples": total.samples[:8],
            "exhaustive": bool(exhaustive),
            "explanation": "states = feasible paths completed and discharged by the solver; transitions = symbolic branch decisions plus environment choices",
            "functions_encoded": sorted(total.functions),
            "paths_outside_bound": total.pruned,
            "paths_cut_by_draw_limit": cut,
            "branch_decisions": total.decisions,
            "branches_forced_by_solver": total.forced,
            "environment_choices": total.choices,
            "claims_decided": total.claims,
            "solver_queries": total.queries,
            "solver_seconds": round(total.solver_s, 2),
            "slowest_query_seconds": round(total.slowest_query, 2),
            "unknown": total.unknown,
            "concretised_values": total.concretised,
            "validation_mismatches": total.validation_mismatch,
            "unsupported_paths": total.unsupported,
            "path_timeouts": total.timeouts,
            "max_path_length": total.max_depth,
            "reachability_covers": total.covers,
            "cases": [
                {"case": c.name, "bounds": c.bounds, "paths": per_case[c.name].paths,
                 "queries": per_case[c.name].queries,
                 "completed": c.name not in left and not fatal and not confirmed}
                for c in cases
            ],
            "unexplored_prefixes": left,
            "inconclusive": inconclusive[:20],
            "not_reproduced": unrepro[:10],
            "mismatch_detail": mismatches[:5],
            "missing_covers": missing,
            "exact_probabilities": laws,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "Python int is modelled by the SMT integers and float by the SMT reals (exact arithmetic)",
            "random.* draws are arbitrary values of their documented range, independent of each other",
        ],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{pid} [{tier}] cases={len(cases)} paths={total.paths} pruned={total.pruned} (cut {cut}) "
          f"decisions={total.decisions} choices={total.choices} forced={total.forced} queries={total.queries} "
          f"solver={total.solver_s:.1f}s claims={total.claims} validated={total.validated} "
          f"mismatch={total.validation_mismatch} unsupported={total.unsupported} unknown={total.unknown} "
          f"concretised={total.concretised} timeouts={total.timeouts} exhaustive={exhaustive} wall={wall:.1f}s")
    if a.verbose:
        for c in cases:
            s = per_case[c.name]
            print(f"   {c.name}: paths={s.paths} pruned={s.pruned} queries={s.queries} solver={s.solver_s:.1f} "
                  f"unexplored={left.get(c.name, 0)} covers={s.covers}")
    for line in known_lines:
        print(line)
    for u in unrepro[:5]:
        print("not reproduced on the real code:", json.dumps({k: u[k] for k in ("case", "kind", "message", "where")})[:400])
        if a.verbose:
            print(u["replay"], u["witness"])
    for x in mismatches[:3]:
        print("validation mismatch:", json.dumps(x, default=str)[:600])
    if confirmed:
        for path, cname, kind, msg, out in confirmed:
            print(f"case={cname} kind={kind} {msg}")
            print("  " + out.strip().replace("\n", "\n  "))
            print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    if fatal:
        print("ERROR:", fatal)
        sys.stdout.flush()
        os._exit(2)
    if missing:
        def undecided(c):
            st = per_case[c]
            return st.unsupported or st.timeouts or st.unknown or st.concretised or any(u["case"] == c for u in unrepro)

        hard = [m for m in missing if not undecided(m.split(":", 1)[0])]
        print("ERROR: nothing reached (vacuous):" if hard else "INCONCLUSIVE (the code left what is modelled):", (hard or missing)[:10])
        sys.stdout.flush()
        os._exit(2 if hard else 0)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
