"""Runs one property's subchecks: generate, judge, shrink, report, write evidence."""
import concurrent.futures as cf
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import hypothesis
import torch
from hypothesis import HealthCheck, Phase, given, settings

from . import sut as _sut
from .sut import Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 150  # a case takes milliseconds; this only catches non-termination
SHRINK_LIMIT_S = 45
SCALE = {"quick": 4, "thorough": 4}  # multiplies every subcheck's case count


class Sub:
    """One subcheck.

    strategy: hypothesis strategy producing a JSON-able case (None: fixed ``cases``)
    check: case -> iterable of labels; a label starting with "trivial" marks the
           case as not counted in distinct_nontrivial
    """

    def __init__(self, name, strategy, check, quick, thorough, cases=None, shard=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough}
        self.cases = cases
        self.shard = shard


class Stop(KeyboardInterrupt):
    pass


def dumps(case):
    return json.dumps(case, sort_keys=True)


def digest(text):
    return hashlib.sha256(text.encode()).digest()


def run_case(sub, case):
    """Judge one case; raises Violation.  Randomness depends on the case only."""
    torch.manual_seed(int.from_bytes(digest(dumps(case))[:4], "big"))
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)

    def hang(*_):
        raise Stop("case exceeded %d s" % CASE_LIMIT_S)

    old = signal.signal(signal.SIGALRM, hang)
    signal.alarm(CASE_LIMIT_S)
    _sut.answers = 0
    try:
        return list(sub.check(case) or [])
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        v = _sut.unusable(e)
        if v is None:
            raise
        raise v from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _size(case):
    t = dumps(case)
    return (len(t), sum(c not in "0" for c in t), t)


def run_shard(args):
    """Worker: returns a result dict, never raises."""
    mod, subname, shard, n, seed, tier = args
    res = {
        "sub": subname,
        "evaluations": 0,
        "labels": {},
        "hashes": [],
        "samples": [],
        "violation": None,
        "error": None,
        "first": [],
    }
    best = [None]  # (size, case, message)
    t_first = [None]
    seen = set()
    try:
        m = importlib.import_module("vf.props." + mod)
        sub = [s for s in m.subs(tier) if s.name == subname][0]

        def one(case):
            if t_first[0] is not None and time.time() - t_first[0] > SHRINK_LIMIT_S:
                raise Stop("shrink limit")
            text = dumps(case)
            try:
                labs = run_case(sub, json.loads(text))
            except Violation as v:
                if t_first[0] is None:
                    t_first[0] = time.time()
                key = _size(case)
                if best[0] is None or key < best[0][0]:
                    best[0] = (key, json.loads(text), str(v))
                raise
            except Stop as s:
                if t_first[0] is None:
                    best[0] = (_size(case), json.loads(text), str(s))
                raise
            if t_first[0] is None:
                res["evaluations"] += 1
                for l in labs:
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if not any(l.startswith("trivial") for l in labs):
                    h = digest(text)[:8].hex()
                    if h not in seen:
                        seen.add(h)
                        if len(res["samples"]) < 2 and len(seen) % 7 == 3:
                            res["samples"].append(case)

        if sub.strategy is None:
            for case in sub.cases[shard::n]:
                one(case)
        else:
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                suppress_health_check=HealthCheck.all(),
                phases=(Phase.generate, Phase.shrink),
                print_blob=hypothesis.PrintSettings.NEVER,
            )(given(sub.strategy)(one))
            test = hypothesis.seed(
                int.from_bytes(digest("%s|%s|%s|%s" % (seed, mod, subname, shard))[:6], "big")
            )(test)
            devnull = open(os.devnull, "w")
            real = sys.stdout
            sys.stdout = devnull
            try:
                test()
            finally:
                sys.stdout = real
                devnull.close()
    except BaseException as e:  # noqa: BLE001
        if best[0] is None:
            res["error"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )[-6000:]
    if best[0] is not None:
        res["violation"] = {"case": best[0][1], "message": best[0][2]}
    res["hashes"] = sorted(seen)
    return res


def _abbrev(v):
    if isinstance(v, str) and len(v) > 80:
        return v[:64] + "...(%d chars)" % len(v)
    if isinstance(v, dict):
        return {k: _abbrev(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_abbrev(x) for x in v[:40]]
    return v


def _atomic(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def known_findings(pid):
    path = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: property=%s " % pid):])
    return out


def _die_with(parent):
    "Worker start-up: go when the check goes, so that an interrupted run leaves nothing behind."
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    except (OSError, AttributeError):
        return
    if os.getppid() != parent:
        os._exit(1)


def run(mod, tier, seed):
    t0 = time.time()
    m = importlib.import_module("vf.props." + mod)
    pid = m.ID
    torch.set_num_threads(1)
    _sut.load()
    subs = m.subs(tier)
    tasks = []
    for s in subs:
        n = int(s.n[tier] * SCALE[tier] * (getattr(m, "QUICK", 1) if tier == "quick" else 1))
        if s.strategy is None:
            k = max(1, min(8, len(s.cases) // 4))
            tasks += [(mod, s.name, i, k, seed, tier) for i in range(k)]
            continue
        per = s.shard or max(1, min(400, (n + 7) // 8))
        i = 0
        while n > 0:
            tasks.append((mod, s.name, i, min(per, n), seed, tier))
            n -= per
            i += 1
    violation = error = None
    agg = {}
    workers = max(1, min(8, os.cpu_count() or 1, len(tasks)))

    # regression corpus: earlier shrunk failures, replayed before anything else
    corpus = os.path.join(ROOT, "corpus", pid + ".jsonl")
    n_corpus = 0
    byname = {s.name: s for s in subs}
    if os.path.exists(corpus):
        for line in open(corpus):
            if not line.strip():
                continue
            rec = json.loads(line)
            if rec["sub"] not in byname:
                error = "corpus names unknown subcheck %s" % rec["sub"]
                break
            try:
                run_case(byname[rec["sub"]], rec["case"])
                n_corpus += 1
            except Violation as v:
                violation = (rec["sub"], rec["case"], str(v))
                break

    if violation is None and error is None:
        ex = cf.ProcessPoolExecutor(
            workers, mp_context=mp.get_context("fork"), initializer=_die_with, initargs=(os.getpid(),)
        )
        try:
            futs = [ex.submit(run_shard, t) for t in tasks]
            for f in cf.as_completed(futs):
                r = f.result()
                a = agg.setdefault(
                    r["sub"], {"evaluations": 0, "labels": {}, "hashes": set(), "samples": []}
                )
                a["evaluations"] += r["evaluations"]
                a["hashes"].update(r["hashes"])
                a["samples"] += r["samples"]
                for k, v in r["labels"].items():
                    a["labels"][k] = a["labels"].get(k, 0) + v
                if r["violation"]:
                    violation = (r["sub"], r["violation"]["case"], r["violation"]["message"])
                    break
                if r["error"] and error is None:
                    error = r["error"]
        except cf.process.BrokenProcessPool:
            error = "a worker process died"
        finally:
            procs = list((getattr(ex, "_processes", None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            if violation or error:
                for p in procs:
                    p.kill()

    replay = None
    if violation:
        name, case, msg = violation
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay = os.path.join(
            ROOT, "replays", "%s-%s-%s.json" % (pid, name, digest(dumps(case))[:4].hex())
        )
        _atomic(
            replay,
            {"property": pid, "module": mod, "tier": tier, "sub": name, "case": case, "message": msg},
        )

    # fixed scenarios for known findings
    finding_lines = []
    if violation is None and error is None and hasattr(m, "known"):
        listed = known_findings(pid)
        for text, still_fails in m.known():
            if text not in listed:
                error = "known finding not listed in known-findings.txt: " + text
            elif still_fails:
                finding_lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))

    ev = sum(a["evaluations"] for a in agg.values()) + n_corpus
    nt = sum(len(a["hashes"]) for a in agg.values())
    samples = []
    for name in sorted(agg):
        for c in sorted(agg[name]["samples"], key=dumps)[:3]:
            samples.append({"sub": name, "case": _abbrev(c)})
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": getattr(m, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": nt,
            "rule": m.RULE,
            "samples": samples[:12] or [{"sub": "none"}],
            "corpus_replayed": n_corpus,
            "subchecks": {
                k: {
                    "evaluations": a["evaluations"],
                    "distinct_nontrivial": len(a["hashes"]),
                    "labels": dict(sorted(a["labels"].items())),
                }
                for k, a in sorted(agg.items())
            },
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])),
        "violations": 1 if violation else 0,
        "violation_details": [] if not violation else [
            {"sub": violation[0], "message": violation[2], "replay": replay}
        ],
        "wall_s": round(time.time() - t0, 2),
    }
    _atomic(os.path.join(ROOT, "evidence", pid + ".json"), evidence)

    if violation:
        print("subcheck %s: %s" % (violation[0], violation[2]))
        print("minimal case: %s" % dumps(_abbrev(violation[1])))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.stdout.flush()
        os._exit(1)
    if error:
        print("CHECK ERROR property=%s\n%s" % (pid, error))
        sys.stdout.flush()
        os._exit(2)
    for l in finding_lines:
        print(l)
    print(
        "ok property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs"
        % (pid, tier, ev, nt, evidence["wall_s"])
    )
    sys.stdout.flush()
    return 0


def replay(path):
    rec = json.load(open(path))
    torch.set_num_threads(1)
    _sut.load()
    m = importlib.import_module("vf.props." + rec["module"])
    sub = [s for s in m.subs(rec.get("tier", "quick")) if s.name == rec["sub"]][0]
    try:
        run_case(sub, rec["case"])
    except Violation as v:
        print("reproduced: %s" % v)
        print("VIOLATION property=%s replay=%s" % (rec["property"], os.path.abspath(path)))
        return 1
    print("not reproduced: property=%s held on this case" % rec["property"])
    return 0
