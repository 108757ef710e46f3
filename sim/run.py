"""
The runner: many seeded runs over worker processes, minimisation, replay files,
evidence.

    run.py check --property C01 [--tier quick|thorough] [--seconds N]
    run.py replay FILE
    run.py one --property C01 --world redeem --seed 17 [--trace]
    run.py audit [--property C01] [--runs N]
"""

from __future__ import annotations

import argparse
import gc
import json
import os
import select
import signal
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.path.join(VERIF, "evidence")
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))


def quiet():
    """No logging: it costs time and holds on to failures."""
    import warnings

    warnings.simplefilter("ignore")
    from twisted.logger import globalLogBeginner

    globalLogBeginner.beginLoggingTo([lambda e: None], redirectStandardIO=False, discardBuffer=True)
    try:
        import eliot

        eliot.Logger._destinations._any_added = True
        eliot.Logger._destinations._destinations[:] = []
        eliot.Logger.write = lambda self, d, s=None: None
    except Exception:
        pass
    sys.unraisablehook = lambda u: None


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return data.get("findings", [])


class Result:
    __slots__ = ("seed", "world", "violation", "error", "known", "digest", "shape", "elapsed",
                 "counters", "states", "tape", "events")

    def as_json(self, full):
        d = {
            "seed": self.seed,
            "world": self.world,
            "violation": self.violation,
            "error": self.error,
            "known": self.known,
            "digest": self.digest,
            "shape": self.shape,
            "elapsed": self.elapsed,
            "counters": dict(self.counters),
            "states": sorted(self.states),
            "events": self.events,
        }
        if full:
            d["tape"] = self.tape
        return d


RUN_SECONDS = 100


def too_long(*a):
    from .core import Budget

    raise Budget("one run takes for ever")


def from_code_under_test(e):
    """Is this exception, which no oracle expected, of the code's own making?"""
    import sqlite3

    if isinstance(e, sqlite3.Error):
        return not getattr(e, "injected", False)
    last = None
    for frame, _ in traceback.walk_tb(e.__traceback__):
        name = frame.f_code.co_filename
        if name.startswith(HERE):
            last = "sim"
        elif "_zkapauthorizer" in name:
            last = "code"
    return last == "code"


def execute(prop, world, seed=None, tape=None, known=(), keep_trace=None):
    """Do one simulated run."""
    from .core import Budget, Choices, Sim, SimCrash, StopRun
    from .isolate import restore
    from .worlds import get_world

    spec = get_world(world)
    restore()
    ch = Choices(seed=seed, tape=tape)
    sim = Sim(prop, ch, known)
    r = Result()
    r.seed, r.world = seed, world
    r.violation = r.error = None

    def blame(kind, message):
        try:
            sim.violation(prop, kind, message)
        except StopRun:
            pass

    signal.signal(signal.SIGALRM, too_long)
    signal.alarm(RUN_SECONDS)
    gc.disable()
    try:
        try:
            spec.fn(sim)
        except StopRun:
            pass
        except Budget as e:
            # Simulated time stands still while work goes on, for ever.
            blame("runs-away", "budget: %s" % (e,))
        except Exception as e:
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if from_code_under_test(e):
                blame("unexpected-" + type(e).__name__, text[-1500:])
            else:
                r.error = text
        except SimCrash:
            r.error = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        sim.close()
        gc.enable()
    for v in sim.violations:
        if v[0] == prop:
            r.violation = list(v)
            r.error = None
            break
    r.known = [list(k) for k in sim.known_hits if k[0] == prop]
    r.digest, r.shape = sim.digest(), sim.shape()
    r.elapsed = sim.elapsed()
    for v in sim.violations:
        if v[0] != prop:
            sim.counters["side:%s:%s" % (v[0], v[1])] += 1
    r.counters = sim.counters
    r.states = sim.states
    r.tape = ch.tape
    r.events = sim.clock.events
    if keep_trace is not None:
        keep_trace.extend(sim.trace)
    return r


def worker(wid, n, prop, plan, base_seed, deadline, known, out, audit_every):
    signal.signal(signal.SIGINT, signal.SIG_IGN)

    def emit(d):
        data = (json.dumps(d) + "\n").encode()
        while data:
            k = os.write(out, data)
            data = data[k:]

    seen_states = set()
    for i, (world, seed) in enumerate(plan):
        if i % n != wid:
            continue
        if time.time() > deadline:
            break
        t0 = time.time()
        r = execute(prop, world, seed=seed, known=known)
        d = r.as_json(full=r.violation is not None)
        d["states"] = [s for s in d["states"] if s not in seen_states]
        seen_states.update(d["states"])
        d["wall"] = time.time() - t0
        if audit_every and i % audit_every == 0 and r.violation is None and r.error is None:
            r2 = execute(prop, world, tape=r.tape, known=known)
            d["audit"] = r2.digest == r.digest
        emit(d)
        if (i // n) % 25 == 24:
            gc.collect()
    emit({"done": wid})
    os.close(out)


def run_pool(prop, plan, base_seed, deadline, known, on_result, audit_every=0, workers=None):
    """Fork workers; feed their results to on_result until it returns True."""
    n = max(1, min(workers or WORKERS, len(plan)))
    kids = {}
    gc.collect()
    for wid in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                for other in kids:
                    os.close(other)
                os.close(rfd)
                worker(wid, n, prop, plan, base_seed, deadline, known, wfd, audit_every)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        kids[rfd] = [pid, b""]
    stop = False
    died = 0
    hard = deadline + 60
    while kids:
        ready, _, _ = select.select(list(kids), [], [], 1.0)
        if time.time() > hard:
            for fd, (pid, _b) in kids.items():
                os.kill(pid, signal.SIGKILL)
            died += len(kids)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if not data:
                pid = kids.pop(fd)[0]
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                if status != 0 and not stop:
                    died += 1
                continue
            buf = kids[fd][1] + data
            *lines, rest = buf.split(b"\n")
            kids[fd][1] = rest
            for line in lines:
                d = json.loads(line)
                if "done" in d or stop:
                    continue
                if on_result(d):
                    stop = True
                    for _fd, (pid, _b) in kids.items():
                        try:
                            os.kill(pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
    return died


def forked(fn, timeout):
    """Run fn in a child so that nothing it does can affect us."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(wfd, data):]
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b""
    end = time.time() + timeout
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0.0, end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        buf += data
    os.close(rfd)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def minimise(prop, world, tape, kind, known, seconds):
    """
    Shrink a failing choice tape: truncate, delete chunks, zero and lower
    entries, as long as the same kind of violation remains.
    """
    end = time.time() + seconds
    tried = 0

    def fails(t):
        nonlocal tried
        tried += 1
        if tried % 25 == 0:
            gc.collect()
        r = execute(prop, world, tape=t, known=known)
        return r.tape if r.violation is not None and r.violation[1] == kind else None

    def trim(t):
        t = list(t)
        while t and t[-1] == 0:
            t.pop()
        return t

    best = fails(tape)
    if best is None:
        return None, tried
    best = trim(best)
    changed = True
    while changed and time.time() < end:
        changed = False
        # Blocks to zero (dropping faults and extra work), large to small.
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                chunk = best[i:i + size]
                done = False
                if any(chunk):
                    cand = best[:i] + [0] * len(chunk) + best[i + size:]
                    got = fails(cand)
                    if got is not None:
                        new = trim(got)
                        if cost(new) < cost(best):
                            best, changed, done = new, True, True
                if not done:
                    cand = best[:i] + best[i + size:]
                    if len(cand) < len(best):
                        got = fails(cand)
                        if got is not None:
                            new = trim(got)
                            if cost(new) < cost(best):
                                best, changed, done = new, True, True
                if not done:
                    i += size
            size //= 2
        # Lower single values.
        i = 0
        while i < len(best) and time.time() < end:
            if best[i] > 1:
                for v in (1, best[i] // 2):
                    if v < best[i]:
                        cand = best[:i] + [v] + best[i + 1:]
                        got = fails(cand)
                        if got is not None and cost(trim(got)) < cost(best):
                            best, changed = trim(got), True
                            break
            i += 1
    return best, tried


def cost(t):
    return (sum(1 for x in t if x), len(t), sum(t))


def repo_head():
    import subprocess

    try:
        return subprocess.run(["git", "-C", repo(), "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


def repo():
    return os.environ.get("REPO", "/repo")


def plan_for(prop, tier, base_seed, scale=1.0):
    from .worlds import checks_for

    plan = []
    for spec in checks_for(prop):
        n = spec.runs(prop, tier)
        n = max(1, int(n * scale))
        plan.extend((spec.name, (base_seed * 1_000_003 + i) * 64 + spec.salt) for i in range(n))
    # Interleave the worlds.
    if len({w for w, _ in plan}) > 1:
        import random

        random.Random(base_seed).shuffle(plan)
    return plan


def check(args):
    from .worlds import checks_for

    prop, tier = args.property, args.tier
    base_seed = int(os.environ.get("VERIF_SEED", "1"))
    known = load_known()
    plan = plan_for(prop, tier, base_seed, args.scale)
    t0 = time.time()
    seconds = args.seconds or (240 if tier == "quick" else 3600)
    deadline = t0 + seconds
    print(f"property={prop} tier={tier} VERIF_SEED={base_seed} runs={len(plan)} workers={WORKERS}", flush=True)

    agg = Counter()
    shapes, states, digests = set(), set(), set()
    st = {"n": 0, "errors": [], "sim": 0.0, "known": {}, "violation": None, "audits": 0,
          "bad_audits": 0, "events": 0, "wall": 0.0, "worlds": Counter(), "samples": [], "nontrivial": 0}

    def on_result(d):
        st["n"] += 1
        st["worlds"][d["world"]] += 1
        st["wall"] += d["wall"]
        if "audit" in d:
            st["audits"] += 1
            if not d["audit"]:
                st["bad_audits"] += 1
        if d["error"]:
            st["errors"].append((d["world"], d["seed"], d["error"]))
            return False
        agg.update(d["counters"])
        if d["shape"] not in shapes:
            shapes.add(d["shape"])
        digests.add(d["digest"])
        states.update(d["states"])
        st["sim"] += d["elapsed"]
        st["events"] += d["events"]
        if len(st["samples"]) < 8 and d["counters"]:
            st["samples"].append({"world": d["world"], "seed": d["seed"], "sim_seconds": round(d["elapsed"], 1),
                                  "events": d["events"], "digest": d["digest"][:16],
                                  "what_happened": {k: v for k, v in sorted(d["counters"].items())[:14]}})
        for k in d["known"]:
            st["known"].setdefault(tuple(k[:2]), k[2])
        if d["violation"]:
            st["violation"] = d
            return True
        return False

    died = run_pool(prop, plan, base_seed, deadline, known, on_result, audit_every=args.audit)
    wall = time.time() - t0
    for k, message in sorted(st["known"].items()):
        what = next((x["what"] for x in known if x["property"] == k[0] and x["kind"] == k[1]), message)
        print(f"KNOWN-FINDING: property={prop} {what}")

    violations = []
    code = 0
    if st["violation"] is not None:
        d = st["violation"]
        vprop, kind, message = d["violation"]
        path = report(prop, d["world"], d["seed"], d["tape"], kind, message, known, args.minimise)
        if path is None:
            path = report_after(prop, plan, d, known)
        if path is None:
            print(f"HARNESS: violation {kind} of seed {d['seed']} did not reproduce", file=sys.stderr)
            code = 2
        else:
            print(f"{kind}: {message}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            violations = [{"kind": kind, "message": message, "replay": path, "seed": d["seed"], "world": d["world"]}]
            code = 1
    n_ok = st["n"] - len(st["errors"])
    if code == 0:
        if died:
            print(f"HARNESS: {died} workers died", file=sys.stderr)
            code = 2
        elif st["bad_audits"]:
            print(f"HARNESS: {st['bad_audits']} of {st['audits']} audited runs were not deterministic", file=sys.stderr)
            code = 2
        elif len(st["errors"]) > max(1, st["n"] // 50) or n_ok < min(20, len(plan)):
            code = 2
    if st["errors"]:
        w, s, e = st["errors"][0]
        print(f"HARNESS: {len(st['errors'])} runs ended in harness errors; first: world={w} seed={s}\n{e}", file=sys.stderr)

    specs = checks_for(prop)
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(agg.items()) if not k.startswith(("fault:", "side:"))}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n_ok,
            "distinct_nontrivial": len(shapes),
            "rule": "one evaluation is one complete simulated run (one seed) with every oracle of the property checked during "
                    "and after it; runs are distinct when their traces differ in the sequence of event kinds (requests, replies, "
                    "commits, faults, crashes, restarts), i.e. distinct interleavings, not distinct seeds",
            "samples": st["samples"],
            "runs_planned": len(plan),
            "runs_per_world": dict(st["worlds"]),
            "seeds_per_hour": int(n_ok * 3600 / max(wall, 0.001)),
            "simulated_seconds": round(st["sim"], 1),
            "simulated_events": st["events"],
            "distinct_traces": len(digests),
            "distinct_interleavings": len(shapes),
            "distinct_states": len(states),
            "state_measure": "hash of the durable state fingerprint reported by the world at quiescent points",
            "faults_injected": faults,
            "probes": probes,
            "determinism_audit": {"runs_replayed_from_tape": st["audits"], "diverged": st["bad_audits"]},
            "harness_errors": len(st["errors"]),
            "known_findings_hit": [list(k) for k in st["known"]],
            "real_components": sorted({c for s in specs for c in s.real}),
            "stubbed_components": sorted({c for s in specs for c in s.stubs}),
            "repo_head": repo_head(),
        },
        "assumptions": sorted({a for s in specs for a in s.assumptions}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violation"] = violations[0]
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    print(f"{prop}: {n_ok} runs, {len(shapes)} interleavings, {len(states)} states, {st['sim']:.0f} simulated s, "
          f"{sum(faults.values())} faults, {wall:.1f} s wall, exit {code}")
    return code


def report(prop, world, seed, tape, kind, message, known, seconds):
    """Minimise, verify and write the replay file."""

    def shrink():
        best, tried = minimise(prop, world, tape, kind, known, seconds)
        return {"tape": best, "tried": tried}

    got = forked(shrink, seconds + 60)
    best = got["tape"] if got and got.get("tape") is not None else tape
    tried = got["tried"] if got else 0

    def final():
        trace = []
        r = execute(prop, world, tape=best, known=known, keep_trace=trace)
        return {"violation": r.violation, "digest": r.digest, "trace": [repr(e) for e in trace]}

    fin = forked(final, 120)
    if not fin or not fin["violation"] or fin["violation"][1] != kind:
        best = tape
        fin = forked(final, 120)
        if not fin or not fin["violation"]:
            return None
    out = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{prop}-{kind}-{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "world": world, "seed": seed, "kind": fin["violation"][1],
                   "message": fin["violation"][2], "tape": best, "digest": fin["digest"],
                   "original_choices": len(tape), "minimised_choices": len(best),
                   "non_default_choices": sum(1 for x in best if x), "minimisation_runs": tried,
                   "trace": fin["trace"]}, f, indent=1)
    return path


def report_after(prop, plan, d, known):
    """
    The violation needs something which earlier runs left behind in the
    process.  Find how many of them, these are then part of what is replayed.
    """
    try:
        i = plan.index((d["world"], d["seed"]))
    except ValueError:
        return None
    n = max(1, min(WORKERS, len(plan)))
    before = plan[i % n:i:n]
    kind = d["violation"][1]
    end = time.time() + 120
    k = 1
    while before and time.time() < end:
        part = before[-k:]

        def attempt():
            for world, seed in part:
                execute(prop, world, seed=seed, known=known)
            trace = []
            r = execute(prop, d["world"], tape=d["tape"], known=known, keep_trace=trace)
            return {"violation": r.violation, "digest": r.digest, "trace": [repr(e) for e in trace]}

        fin = forked(attempt, max(1.0, end - time.time()))
        if fin and fin["violation"] and fin["violation"][1] == kind:
            out = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(out, exist_ok=True)
            path = os.path.join(out, f"{prop}-{kind}-{d['seed']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "world": d["world"], "seed": d["seed"], "kind": kind, "message": fin["violation"][2],
                           "before": part, "tape": d["tape"], "digest": fin["digest"], "trace": fin["trace"]}, f, indent=1)
            return path
        if k >= len(before):
            return None
        k *= 4
    return None


def replay(args):
    with open(args.file) as f:
        d = json.load(f)
    for world, seed in d.get("before", ()):
        execute(d["property"], world, seed=seed)
    trace = []
    r = execute(d["property"], d["world"], tape=d["tape"], keep_trace=trace)
    for e in trace:
        print(" ", e)
    if r.error:
        print("HARNESS:", r.error, file=sys.stderr)
        return 2
    if r.violation and r.violation[1] == d["kind"]:
        same = "exactly" if r.digest == d["digest"] else "same violation, different trace"
        print(f"{r.violation[1]}: {r.violation[2]}")
        print(f"reproduced {same}")
        print(f"VIOLATION property={d['property']} replay={args.file}")
        return 1
    print("no violation")
    return 0


def one(args):
    trace = []
    t0 = time.time()
    r = execute(args.property, args.world, seed=args.seed, known=load_known() if args.known else (), keep_trace=trace)
    if args.trace:
        for e in trace:
            print(" ", e)
    print("digest", r.digest[:16], "events", r.events, "elapsed", round(r.elapsed, 1), "choices", len(r.tape), "wall %.3f" % (time.time() - t0))
    print(dict(r.counters))
    print("violation", r.violation)
    if r.error:
        print("ERROR", r.error)
    return 0


def survey(args):
    """How often does each kind of violation occur?  Does not stop at the first."""
    t0 = time.time()
    for prop in args.property.split(","):
        plan = plan_for(prop, "quick", int(os.environ.get("VERIF_SEED", "1")), args.scale)
        if args.world:
            plan = [x for x in plan if x[0] == args.world]
        kinds, ex, errs, n = Counter(), {}, [], [0]
        counters = Counter()

        def on_result(d):
            n[0] += 1
            counters.update(d["counters"])
            if d["violation"]:
                k = d["violation"][1]
                kinds[k] += 1
                ex.setdefault(k, (d["world"], d["seed"], d["violation"][2]))
            if d["error"]:
                errs.append((d["world"], d["seed"], d["error"]))
            return False

        run_pool(prop, plan, 1, time.time() + args.seconds, () if args.all else load_known(), on_result)
        print(f"{prop}: {n[0]} runs {time.time() - t0:.1f} s; {len(errs)} errors")
        for k, c in kinds.most_common():
            print("   ", c, k, ex[k])
        for e in errs[:args.errors]:
            print("    ERROR", e[0], e[1], e[2][-700:])
        if args.counters:
            for k, v in sorted(counters.items()):
                print("       ", k, v)
    return 0


def audit(args):
    """
    Print one digest per seed, for comparing whole interpreters (other
    PYTHONHASHSEED, other worker counts).
    """
    from .worlds import all_specs

    for spec in all_specs():
        for prop in spec.properties:
            if args.property and prop != args.property:
                continue
            plan = [(spec.name, (i + 7) * 64 + spec.salt) for i in range(args.runs)]
            got = {}

            def on_result(d):
                got[d["seed"]] = (d["digest"], bool(d["error"]))
                return False

            run_pool(prop, plan, 7, time.time() + 3600, load_known(), on_result)
            for s in sorted(got):
                print(spec.name, prop, s, *got[s])
            break
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("--property", required=True)
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seconds", type=float, default=0)
    c.add_argument("--scale", type=float, default=1.0)
    c.add_argument("--minimise", type=float, default=40)
    c.add_argument("--audit", type=int, default=20)
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("--property", required=True)
    o.add_argument("--world", required=True)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--trace", action="store_true")
    o.add_argument("--known", action="store_true")
    v = sub.add_parser("survey")
    v.add_argument("--property", required=True)
    v.add_argument("--world")
    v.add_argument("--errors", type=int, default=1)
    v.add_argument("--scale", type=float, default=1.0)
    v.add_argument("--seconds", type=float, default=600)
    v.add_argument("--all", action="store_true")
    v.add_argument("--counters", action="store_true")
    a = sub.add_parser("audit")
    a.add_argument("--property")
    a.add_argument("--runs", type=int, default=40)
    args = ap.parse_args()
    quiet()
    sys.setrecursionlimit(6000)
    return {"check": check, "replay": replay, "one": one, "audit": audit, "survey": survey}[args.cmd](args)


if __name__ == "__main__":
    sys.exit(main())
