"""Seeded search: one integer decides every run. Worker processes fork one pristine child per simulated run, so a run
is a pure function of (code, plan) and the plan a pure function of (seed, property, run index)."""
import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class StepLimit(BaseException):
    pass


def digest(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def rng_for(seed, prop, idx) -> random.Random:
    return random.Random(f"{seed}/{prop}/{idx}")


class Out:
    """What one simulated run reports."""

    def __init__(self):
        self.viol = []
        self.cov = {}
        self.faults = {}
        self.states = []
        self.events = 0
        self.log = []
        self.inconclusive = None

    def hit(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def state(self, obj):
        self.states.append(int(digest(obj)[:15], 16))

    def violate(self, sig, msg):
        self.viol.append({"sig": sig, "msg": msg[:4000]})

    def as_dict(self):
        return {
            "viol": self.viol,
            "cov": self.cov,
            "faults": self.faults,
            "states": self.states,
            "events": self.events,
            "log": digest([self.log, self.viol, self.cov, self.faults, self.states, self.events]),
            "inconclusive": self.inconclusive,
        }


def _limit_memory():
    gb = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _install_step_limit(limit):
    root = os.environ.get("VERIF_REPO", "/repo")
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > limit:
                raise StepLimit()
        return local

    def glob(frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(root) or "antlr4" in fn:
            return local
        return None

    sys.settrace(glob)


def fork_eval(fn, timeout):
    """Run fn() in a forked child; returns ('ok', value) | ('timeout', None) | ('dead', text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 2)
            _limit_memory()
            try:
                val = ("ok", fn())
            except BaseException:
                val = ("exc", traceback.format_exc())
            data = json.dumps(val).encode()
            while data:
                k = os.write(w, data[:65536])
                data = data[k:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = time.monotonic() + timeout
    status = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            status = "timeout"
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf.append(chunk)
    os.close(r)
    if status == "timeout":
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return ("timeout", None)
    os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        val = json.loads(b"".join(buf).decode())
    except ValueError:
        return ("dead", "child died without an answer")
    return tuple(val)


def _exec_plan(check, plan, step_limit=None):
    out = Out()
    if step_limit:
        out.hit("step_limited_runs")
        _install_step_limit(step_limit)
        try:
            check.execute(plan, out)
        except StepLimit:
            sys.settrace(None)
            out.viol = []
            out.violate("no-answer", f"no answer within {step_limit} interpreter line events")
        finally:
            sys.settrace(None)
    else:
        check.execute(plan, out)
    return out.as_dict()


def run_plan(check, plan, timeout=None):
    """Execute one plan in a fresh forked child. Always returns an outcome dict (harness problems under 'error')."""
    timeout = timeout or getattr(check, "RUN_TIMEOUT", 20)
    st, val = fork_eval(lambda: _exec_plan(check, plan), timeout)
    if st == "ok":
        return val
    if st == "timeout":
        lim = getattr(check, "STEP_LIMIT", None)
        if lim:
            st, val = fork_eval(lambda: _exec_plan(check, plan, lim), 150)
            if st == "ok" and any(v["sig"] == "no-answer" for v in val["viol"]):
                return val
        o = Out()
        o.inconclusive = "wall timeout"
        return o.as_dict()
    o = Out().as_dict()
    o["error"] = val
    return o


def run_index(check, seed, idx, tier):
    st, plan = fork_eval(lambda: check.gen(rng_for(seed, check.PROP, idx), idx, tier), 60)
    if st != "ok":
        o = Out().as_dict()
        o["error"] = f"generator: {st}: {plan}"
        return None, o
    return plan, run_plan(check, plan)


def _gen_and_exec(check, seed, idx, tier):
    plan = check.gen(rng_for(seed, check.PROP, idx), idx, tier)
    # what is executed is what a replay file would hold
    plan = json.loads(json.dumps(plan))
    return _exec_plan(check, plan)


def run_index_fast(check, seed, idx, tier):
    st, val = fork_eval(lambda: _gen_and_exec(check, seed, idx, tier), getattr(check, "RUN_TIMEOUT", 20))
    if st == "ok":
        return val
    return run_index(check, seed, idx, tier)[1]


def _worker(check, seed, tier, indices, wfd, deadline):
    gc.collect()
    gc.freeze()
    for idx in indices:
        if time.monotonic() > deadline:
            break
        o = run_index_fast(check, seed, idx, tier)
        o["idx"] = idx
        data = (json.dumps(o) + "\n").encode()
        while data:
            k = os.write(wfd, data)
            data = data[k:]


def sweep(check, seed, tier, indices, workers, budget_s, stop_on_violation=True, on_result=None):
    deadline = time.monotonic() + budget_s
    indices = list(indices)
    procs = {}
    for w in range(workers):
        part = indices[w::workers]
        if not part:
            continue
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(check, seed, tier, part, wfd, deadline)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        procs[r] = [pid, b""]
    results = []
    grace = None
    while procs:
        if grace is not None and time.monotonic() > grace:
            for r, (pid, _) in procs.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                os.waitpid(procs[r][0], 0)
                os.close(r)
                del procs[r]
                continue
            procs[r][1] += chunk
            *lines, rest = procs[r][1].split(b"\n")
            procs[r][1] = rest
            for ln in lines:
                o = json.loads(ln)
                results.append(o)
                if on_result:
                    on_result(o)
                if stop_on_violation and grace is None and any(not v.get("known") for v in _unknown(check, o)):
                    grace = time.monotonic() + 3.0
    results.sort(key=lambda o: o["idx"])
    return results


# ---------------------------------------------------------------- known findings
def load_known(prop):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for ln in open(KNOWN, encoding="utf-8"):
        ln = ln.strip()
        if ln.startswith("finding: "):
            fields = dict(p.split("=", 1) for p in ln[9:].split(" | ")[0].split())
            if fields.get("property") == prop:
                fields["what"] = ln.split(" | ", 1)[1] if " | " in ln else ""
                out.append(fields)
    return out


def _unknown(check, o):
    known = {k["sig"] for k in load_known(check.PROP)}
    return [v for v in o["viol"] if v["sig"] not in known]


# ---------------------------------------------------------------- minimisation
def minimise(check, plan, sig, budget_s=60, max_tries=600):
    t0 = time.monotonic()
    tries = 0
    best = plan
    progress = True
    while progress:
        progress = False
        for cand in _candidates(check, best):
            if time.monotonic() - t0 > budget_s or tries >= max_tries:
                return best, tries
            tries += 1
            o = run_plan(check, json.loads(json.dumps(cand)))
            if any(v["sig"] == sig for v in o["viol"]):
                best = cand
                progress = True
                break
    return best, tries


def _candidates(check, plan):
    try:
        yield from check.shrink(plan)
    except Exception:
        # a smaller case is a convenience: without it the violation is reported as found
        traceback.print_exc()


# generic JSON-tree shrinking helpers ------------------------------------------------
def shrink_list(lst, min_len=0):
    """Candidate lists with chunks removed, largest chunks first."""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            cand = lst[:i] + lst[i + size :]
            if len(cand) >= min_len and len(cand) < n:
                yield cand
        size //= 2


def main(check, argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--list", action="store_true", help="print the kinds of violation seen, without minimising")
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--selftest", type=int, default=None, help="determinism test over N seeds")
    ap.add_argument("--dump", action="store_true", help="print per-run log digests")
    a = ap.parse_args(argv)
    prop = check.PROP

    if a.replay:
        return replay(check, a.replay)

    print(f"seed={a.seed} property={prop} tier={a.tier}", flush=True)
    if hasattr(check, "setup"):
        check.setup(a.tier)
    tiercfg = dict(check.TIERS[a.tier])
    if a.runs:
        tiercfg["runs"] = a.runs
    if a.budget:
        tiercfg["budget_s"] = a.budget
    t0 = time.monotonic()
    results = sweep(
        check,
        a.seed,
        a.tier,
        range(a.first, a.first + tiercfg["runs"]),
        a.workers,
        tiercfg["budget_s"],
        stop_on_violation=not a.all,
    )
    search_s = time.monotonic() - t0
    if a.dump:
        for o in results:
            print("LOG", o["idx"], o["log"])

    # determinism self check: the same seeds again, other worker count
    det = {"compared": 0, "different": 0, "different_indices": []}
    if not a.dump:
        picked = [o["idx"] for o in results if not o.get("error") and not o["inconclusive"]]
        picked = picked[:: max(1, len(picked) // tiercfg.get("determinism_sample", 48))]
        again = sweep(check, a.seed, a.tier, picked, max(1, a.workers // 2 - 1), 60, stop_on_violation=False)
        first = {o["idx"]: o["log"] for o in results}
        for o in again:
            if o.get("error") or o["inconclusive"]:
                continue
            det["compared"] += 1
            if first[o["idx"]] != o["log"]:
                det["different"] += 1
                det["different_indices"].append(o["idx"])

    extra_viol = []
    extra = {}
    if hasattr(check, "extra"):
        eo = Out()
        extra = check.extra(a.seed, a.tier, eo) or {}
        for v in eo.viol:
            extra_viol.append(v)
        results.append(dict(eo.as_dict(), idx=10**9, extra=True))

    cov, faults, states = {}, {}, set()
    events = 0
    errors, inconclusive, viols = [], [], []
    for o in results:
        for k, n in o["cov"].items():
            cov[k] = cov.get(k, 0) + n
        for k, n in o["faults"].items():
            faults[k] = faults.get(k, 0) + n
        states.update(o["states"])
        events += o["events"]
        if o.get("error"):
            errors.append((o["idx"], o["error"]))
        if o["inconclusive"]:
            inconclusive.append((o["idx"], o["inconclusive"]))
        for v in o["viol"]:
            viols.append((o["idx"], v, o.get("extra")))

    known = load_known(prop)
    known_sigs = {k["sig"]: k for k in known}
    seen_known = set()
    new = {}
    for idx, v, ex in viols:
        if v["sig"] in known_sigs:
            seen_known.add(v["sig"])
        else:
            new.setdefault(v["sig"], (idx, v, ex))

    # listed findings are confirmed from their own reproduction, so that they are reported on every run
    for k in known:
        if k["sig"] not in seen_known and k.get("repro"):
            rp = os.path.join(VERIF, k["repro"])
            if os.path.exists(rp):
                o = run_plan(check, json.load(open(rp))["plan"])
                if any(v["sig"] == k["sig"] for v in o["viol"]):
                    seen_known.add(k["sig"])
    for s in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {s} {known_sigs[s]['what']}")

    if a.list:
        print(f"{len(results)} runs, {len(errors)} harness errors {errors[:1]}, inconclusive {inconclusive[:5]}")
        n = {}
        for idx, v, ex in viols:
            n.setdefault(v["sig"], []).append((idx, v["msg"]))
        for sig, l in sorted(n.items(), key=lambda x: -len(x[1])):
            print(f"{len(l):6d} {sig}  e.g. {[i for i, _ in l[:4]]}: {l[0][1][:200]!r}")
        return 1

    reports = []
    for sig, (idx, v, ex) in list(new.items())[:4]:
        rdir = os.path.join(VERIF, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{digest([prop, sig, a.seed, idx])}.json")
        plan = v.get("plan")
        tries = 0
        reproduced = None
        if not ex:
            plan, o = run_index(check, a.seed, idx, a.tier)
            plan = json.loads(json.dumps(plan))
            reproduced = any(x["sig"] == sig for x in o["viol"])
            if reproduced:
                plan, tries = minimise(check, plan, sig, budget_s=40)
                o = run_plan(check, json.loads(json.dumps(plan)))
                for x in o["viol"]:
                    if x["sig"] == sig:
                        v = x
        desc = check.describe(plan) if plan is not None and hasattr(check, "describe") else None
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(
                {
                    "property": prop,
                    "seed": a.seed,
                    "run": idx,
                    "sig": sig,
                    "message": v["msg"],
                    "minimise_tries": tries,
                    "reproduced_in_fresh_child": reproduced,
                    "plan": plan,
                    "readable": desc,
                },
                fh,
                indent=1,
            )
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  run {idx}: {sig}: {v['msg'][:1500]}")
        reports.append({"sig": sig, "run": idx, "message": v["msg"][:800], "replay": path, "reproduced": reproduced})

    wall = time.monotonic() - t0
    nruns = len([o for o in results if not o.get("extra")])
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(states),
            "rule": check.RULE,
            "samples": [sample(check, a.seed, a.tier, o) for o in results[:3]],
            "runs_per_hour_each_with_its_own_seed": int(nruns / search_s * 3600) if search_s > 0 else 0,
            "simulated_time": check.SIM_TIME,
            "simulated_events": events,
            "faults_injected": faults,
            "reached": cov,
            "determinism": det,
            "inconclusive_runs": len(inconclusive),
            "harness_errors": len(errors),
            "components": check.COMPONENTS,
            "extra": extra,
        },
        "wall_s": round(wall, 2),
        "assumptions": check.ASSUMPTIONS,
        "violations": reports,
        "known_findings_seen": sorted(seen_known),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print(
        f"{prop}: {nruns} runs in {search_s:.1f}s, {len(states)} distinct states, {events} events, faults {faults}, "
        f"inconclusive {len(inconclusive)}, harness errors {len(errors)}, determinism {det['compared']}/{det['different']} differing"
    )
    for k in sorted(cov):
        print(f"   {k}: {cov[k]}")
    if det["different"]:
        print("NOTE: same seed gave different logs for runs", det["different_indices"][:10])
    for idx, e in inconclusive[:5]:
        print(f"NOTE: run {idx} inconclusive: {e}")
    for idx, e in errors[:5]:
        print(f"HARNESS ERROR in run {idx}:\n{e}")
    if reports:
        return 1
    if errors or nruns == 0:
        print("ERROR: the harness itself failed; nothing is claimed")
        return 2
    if len(inconclusive) > max(3, nruns // 50):
        print("ERROR: too many inconclusive runs; nothing is claimed")
        return 2
    return 0


def sample(check, seed, tier, o):
    """One case of this run, written out."""
    if o.get("extra"):
        return {"batch": o["cov"]}
    st, plan = fork_eval(lambda: check.gen(rng_for(seed, check.PROP, o["idx"]), o["idx"], tier), 60)
    if st == "ok" and hasattr(check, "describe"):
        st, plan = fork_eval(lambda: check.describe(plan), 60)
    txt = json.dumps(plan)
    return {"run": o["idx"], "log_digest": o["log"], "events": o["events"], "reached": o["cov"], "faults": o["faults"],
            "case": plan if len(txt) < 6000 else txt[:6000] + "..."}


def replay(check, path):
    d = json.load(open(path, encoding="utf-8"))
    if hasattr(check, "setup"):
        check.setup("quick")
    if d["plan"] is None:
        print("this replay file holds no plan (found by a whole-batch check); rerun the check with its seed", d["seed"])
        return 2
    o = run_plan(check, d["plan"])
    if o.get("error"):
        print("HARNESS ERROR", o["error"])
        return 2
    for v in o["viol"]:
        if v["sig"] == d["sig"]:
            print(f"VIOLATION property={check.PROP} replay={path}")
            print(f"  {v['sig']}: {v['msg']}")
            return 1
    print("not reproduced; outcome:", json.dumps(o)[:2000])
    return 0
