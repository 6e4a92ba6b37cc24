"""
Runner shared by all checks: enumerates the cases of a check, runs them on all cores, writes evidence and
replay files, and turns everything that goes wrong inside the library into a violation.

A check is a module mc/checks/cNN.py with
    LEVEL        evidence level
    RULE         how cases are made (text for the evidence file)
    ASSUMPTIONS  list of texts
    cases(tier)  iterable of JSON-able case specifications (the exhaustive enumeration)
    run_case(spec, st)  -> None if the property held, else a message; `st` is a Stats to count in
"""
import collections
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CASE_TIMEOUT = {"quick": 150, "thorough": 1800}
DEADLINE = {"quick": 780, "thorough": 4 * 3600}
LARGE_TIMEOUT = 90
MAX_VIOLATIONS = 3


class Timeout(BaseException):
    pass


class Stats(collections.Counter):
    """Counters: states, transitions, traces (histories run on the real code), evaluations, nontrivial,
    aer (strings replayed on qiskit-aer), plus anything else a check wants to report."""


_MOD = None
_KNOWN = {}


def _alarm(_sig, _frm):
    raise Timeout()


def guarded(mod, spec, timeout):
    st = Stats()
    signal.signal(signal.SIGALRM, _alarm)
    large = isinstance(spec, dict) and spec.get("large")
    timeout = min(timeout, LARGE_TIMEOUT) if large else timeout
    signal.alarm(timeout)
    try:
        msg = mod.run_case(spec, st)
    except Timeout:
        msg = f"no answer within {timeout} s (does not terminate)"
        if large:  # a slower but right implementation is no violation: the case stays undecided
            st["undecided"] += 1
            msg = None
    except BaseException as e:  # whatever the library throws on a valid use is a violation
        if isinstance(e, (KeyboardInterrupt, SystemExit, GeneratorExit)):
            msg = f"unexpected {type(e).__name__}"
        else:
            msg = "unexpected exception: " + "".join(traceback.format_exception(e))[-3000:]
    finally:
        signal.alarm(0)
    return msg, st


def _work(arg):
    batch, timeout = arg
    out = []
    for i, spec in batch:
        msg, st = guarded(_MOD, spec, timeout)
        out.append((i, msg, dict(st)))
        if msg and spec_key(spec) not in _KNOWN:
            break
    return out


def _quiet():
    # the library prints progress; keep worker output out of the check's stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def known_findings(prop):
    """[(key, text)] of the unrepaired findings listed for `prop`."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=" + prop + " "):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" :: ")
                out.append((key, text))
    return out


def spec_key(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def write_replay(prop, n, spec, msg):
    d = os.path.join(ROOT, "out", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"violation_{n}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "spec": spec, "message": msg}, f, indent=1)
    return os.path.relpath(path, ROOT)


def run(prop, tier):
    global _MOD, _KNOWN
    t0 = time.time()
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    try:
        os.remove(evidence)
    except FileNotFoundError:
        pass
    try:
        mod = _MOD = importlib.import_module("mc.checks." + prop.lower())
        specs = list(mod.cases(tier))
    except Exception as e:  # the library cannot even be imported / set up
        msg = "setting up the exploration failed: " + "".join(traceback.format_exception(e))[-3000:]
        path = write_replay(prop, 0, {"setup": True}, msg)
        print(msg)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    total = Stats()
    done = 0
    bad = []
    truncated = False
    known = _KNOWN = dict(known_findings(prop))
    hit_known = {}
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)[tier]
    procs = getattr(mod, "PROCS", 8)
    samples = []
    ctx = multiprocessing.get_context("fork")
    chunk = max(1, min(16, len(specs) // (procs * 8) or 1))
    chunk = getattr(mod, "CHUNK", chunk)
    with ctx.Pool(procs, initializer=_quiet) as pool:
        todo = list(enumerate(specs))
        batches = [todo[k:k + chunk] for k in range(0, len(todo), chunk)]
        it = pool.imap_unordered(_work, ((b, timeout) for b in batches))
        stop = False
        while not stop:
            left = DEADLINE[tier] - (time.time() - t0)
            try:
                results = it.next(timeout=max(left, 0.1))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                truncated = True
                break
            for i, msg, st in results:
                done += 1
                total.update(st)
                if len(samples) < 3 or (len(samples) < 6 and done > len(specs) // 2):
                    if not msg:
                        samples.append(specs[i])
                if msg:
                    key = spec_key(specs[i])
                    if key in known:
                        hit_known[key] = known[key]
                        continue
                    bad.append((i, msg))
                    stop = len(bad) >= MAX_VIOLATIONS
        pool.terminate()
    for key, text in hit_known.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    wall = time.time() - t0
    cov = coverage(mod, total, done, len(specs), samples, truncated or bool(bad))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": SEED,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {done}/{len(specs)} cases, {dict(total)}, {wall:.1f} s"
          + (" TRUNCATED by the time limit" if truncated else ""))
    for n, (i, msg) in enumerate(sorted(bad)):
        path = write_replay(prop, n, specs[i], msg)
        print(f"-- case {json.dumps(specs[i])[:600]}\n   {msg[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if bad else 0


def coverage(mod, total, done, n, samples, partial):
    c = dict(total)
    ev = c.pop("evaluations", 0)
    non = c.pop("nontrivial", 0)
    states = c.pop("states", 0)
    trans = c.pop("transitions", 0)
    traces = c.pop("traces", 0)
    out = {
        "cases": done,
        "cases_enumerated": n,
        "exhaustive": not partial,
        "rule": mod.RULE,
        "samples": [json.dumps(s) if not isinstance(s, str) else s for s in samples],
    }
    if mod.LEVEL == "model_checking":
        out.update(states=states, transitions=trans, traces_validated_against_impl=traces)
        if ev:
            out["evaluations"] = ev
    else:
        out.update(evaluations=ev, distinct_nontrivial=non)
        if states:
            out["states"] = states
        if trans:
            out["transitions"] = trans
        if traces:
            out["traces_validated_against_impl"] = traces
    out.update(c)
    return out


def replay(prop, path):
    global _MOD
    d = json.load(open(path))
    if d["spec"] == {"setup": True}:
        return run(prop, os.environ.get("VERIF_TIER", "quick"))
    _MOD = mod = importlib.import_module("mc.checks." + prop.lower())
    msg, st = guarded(mod, d["spec"], 3600)
    if msg:
        print(msg)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: the recorded case holds; {dict(st)}")
    return 0


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = "quick"
    if "--thorough" in argv or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in argv):
        tier = "thorough"
    return run(prop, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
