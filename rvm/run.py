"""Runner: drives the workload of one property's check over worker processes, collects the
verdicts of its monitors, applies the known-findings list, writes evidence, decides the exit.

exit 0  held on everything observed          exit 1  VIOLATION printed
exit 3  inconclusive (a monitor was not reached often enough, a worker died or timed out)
"""
import argparse, importlib, json, os, sys, time, traceback, tempfile, shutil, signal, zlib, io
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RVM_REPO", "/repo")


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _init_worker(scratch):
    # imports must come from the working tree of the repository, whatever is installed
    sys.path.insert(0, REPO)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["RVM_SCRATCH"] = scratch
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def _run_case(prop, idx, seed, tier, limit, scratch, directed=None):
    from rvm.core import Case
    mod = importlib.import_module("checks." + prop.lower())
    c = Case(prop, idx, seed, tier, scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    quiet = os.environ.get("RVM_NOISY") != "1"
    if quiet:
        os.dup2(devnull, 1)
    real_err = os.dup(2)
    if quiet:
        os.dup2(devnull, 2)
    t0 = time.time()
    timeout = False
    try:
        mod.run_case(c)
    except CaseTimeout:
        timeout = True
        c.inconclusive.append("timeout after %ds" % limit)
    except SystemExit as e:
        c.violate("unexpected-exit", "code under test called sys.exit(%r)\n%s" % (e.code, traceback.format_exc()[-1500:]))
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(os.path.join(os.path.abspath(REPO), ""))]
        # arguments the code does not take any more: nothing observed
        inrun = isinstance(e, TypeError) and "argument" in str(e)
        if inrepo:
            f = inrepo[-1]
            # the code under test raised on an input the property covers
            c.violate("exception-%s" % type(e).__name__, "raised at %s:%s\n%s" % (
                f.name, type(e).__name__, traceback.format_exc()[-2500:]))
        elif isinstance(e, (ValueError, IndexError, KeyError, TypeError, ZeroDivisionError, FileNotFoundError, EOFError)) and not inrun:
            # the monitor could not make sense of a result (wrong shape, missing file, not a number):
            # never happens with results that are right
            c.violate("unreadable-result", traceback.format_exc()[-2500:])
        else:
            c.inconclusive.append("harness exception: " + traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.flush()
        os.dup2(real_out, 1); os.dup2(real_err, 2)
        os.close(real_out); os.close(real_err); os.close(devnull)
        c.cleanup()
        try:
            import matplotlib
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
        except Exception:
            pass
    r = c.result()
    r["wall"] = time.time() - t0
    r["timeout"] = timeout
    return r


def _isolated(prop, idx, seed, tier, limit, scratch, q):
    _init_worker(scratch)
    q.put(_run_case(prop, idx, seed, tier, limit, scratch))


def run_isolated(prop, idx, seed, tier, limit, scratch):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_isolated, args=(prop, idx, seed, tier, limit, scratch, q))
    p.start()
    r = None
    t0 = time.time()
    while time.time() - t0 < limit + 60:
        try:
            r = q.get(timeout=1)
            break
        except Exception:
            if not p.is_alive():
                try:
                    r = q.get(timeout=1)
                except Exception:
                    pass
                break
    p.join(5)
    if p.is_alive():
        p.kill()
    if r is None:
        sig = p.exitcode
        r = dict(idx=idx, events={}, violations=[dict(mech="process-death", detail="worker ended with exit code %r" % sig)]
                 if isinstance(sig, int) and sig in (-11, -6, -7, -8) else [],
                 inconclusive=[] if isinstance(sig, int) and sig in (-11, -6, -7, -8) else ["worker ended with %r" % sig],
                 keys=[], samples=[], evals=1, wall=0, label="?")
    return r


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                d = dict(x.split("=", 1) for x in parts[1:3])
                if d.get("property") == prop:
                    known[d["key"]] = parts[3] if len(parts) > 3 else ""
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RVM_JOBS", "8")))
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, only = rp["seed"], rp["tier"], [rp["case"]]
    if a.case is not None:
        only = [a.case]
    t0 = time.time()
    sys.path.insert(0, REPO)
    scratch = tempfile.mkdtemp(prefix="rvm_%s_" % prop)
    code = 3
    try:
        code = drive(prop, tier, seed, only, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    # worker leftovers are never left behind
    os._exit(code) if code != 0 else sys.exit(0)


def drive(prop, tier, seed, only, a, scratch, t0):
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    mod = importlib.import_module("checks." + prop.lower())
    n = a.cases or mod.CASES[tier]
    idxs = only if only is not None else list(range(n))
    limit = getattr(mod, "CASE_LIMIT", {"quick": 120, "thorough": 300})[tier]
    budget = {"quick": 420.0, "thorough": 780.0}[tier]
    results = []
    dead = []
    jobs = min(a.jobs, getattr(mod, "JOBS", 8), len(idxs))
    if only is not None:
        for i in idxs:
            _init_worker(scratch)
            results.append(_run_case(prop, i, seed, tier, limit, scratch))
    else:
        pending = list(idxs)
        ctx = mp.get_context("fork")
        try:
            with ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker, initargs=(scratch,)) as ex:
                futs = {}
                it = iter(pending)
                inflight = set()
                done_idx = set()
                exhausted = False
                try:
                    while True:
                        while not exhausted and len(inflight) < jobs * 2:
                            if time.time() - t0 > budget:
                                exhausted = True
                                break
                            try:
                                i = next(it)
                            except StopIteration:
                                exhausted = True
                                break
                            f = ex.submit(_run_case, prop, i, seed, tier, limit, scratch)
                            futs[f] = i
                            inflight.add(f)
                        if not inflight:
                            break
                        from concurrent.futures import wait, FIRST_COMPLETED
                        done, inflight = wait(inflight, return_when=FIRST_COMPLETED)
                        for f in done:
                            results.append(f.result())
                            done_idx.add(futs[f])
                            nv = sum(len(r["violations"]) for r in results[-1:])
                        if sum(1 for r in results if r["violations"]) >= (1 if os.environ.get("RVM_STOP") == "1" else 400):
                            exhausted = True
                        if sum(1 for r in results if r.get("timeout")) >= 8:
                            exhausted = True
                except BrokenProcessPool:
                    lost = sorted(set(futs.values()) - done_idx)
                    dead.extend(lost)
        except BrokenProcessPool:
            pass
    # a case that ran out of time is run once more on its own: twice without an answer is a violation
    # (the code under test did not finish), once is the machine
    late = [r for r in results if r.get("timeout")]
    if late and only is None and not any(r["violations"] for r in results):
        r = late[0]
        again = run_isolated(prop, r["idx"], seed, tier, limit, scratch)
        if again.get("timeout"):
            again["inconclusive"] = []
            again["violations"] = [dict(mech="does-not-finish", detail="no answer within %d s, twice" % limit)]
        results = [x for x in results if x["idx"] != r["idx"]] + [again]
        for x in late[1:]:
            if again["violations"]:
                x["inconclusive"] = []
    for i in dead:
        results.append(run_isolated(prop, i, seed, tier, limit, scratch))
    return judge(prop, mod, tier, seed, results, dead, t0, a, n)


def judge(prop, mod, tier, seed, results, dead, t0, a, n):
    results.sort(key=lambda r: r["idx"])
    known = load_known(prop)
    events, keys, samples, labels = {}, set(), [], {}
    evals = 0
    inconc, viols, hits = [], [], {}
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        keys.update(r["keys"])
        evals += r["evals"]
        labels[r["label"]] = labels.get(r["label"], 0) + 1
        inconc += ["case %d: %s" % (r["idx"], x) for x in r["inconclusive"]]
        for v in r["violations"]:
            v = dict(v, case=r["idx"], label=r["label"])
            if v["mech"] in known:
                hits.setdefault(v["mech"], []).append(v)
            else:
                viols.append(v)
    seen_lab = set()
    for r in results:
        if r["samples"] and r["label"] not in seen_lab and len(samples) < 12:
            seen_lab.add(r["label"])
            samples.append(dict(case=r["idx"], label=r["label"], sample=r["samples"][0]))
    wall = time.time() - t0
    full = a.case is None and a.replay is None and a.cases is None
    need = getattr(mod, "MIN_EVENTS", {})
    short = {}
    if full and not viols:
        for k, v in need.items():
            if events.get(k, 0) < v:
                if k in getattr(mod, "SOFT_EVENTS", ()):
                    print("note: %s observed %d times only (usually at least %d)" % (k, events.get(k, 0), v))
                else:
                    short[k] = [events.get(k, 0), v]
        for mech in known:
            if mech not in hits:
                print("note: listed finding %s was not observed in this run" % mech)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
                            monitor_events=events, scenarios=labels, cases_run=len(results), cases_planned=n,
                            known_findings_hit={k: len(v) for k, v in hits.items()},
                            inconclusive=inconc[:20]),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viols))
    if full or os.environ.get("RVM_EVIDENCE"):
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp%d" % os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for mech, vs in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (prop, mech, known[mech], len(vs)))
    code = 0
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        mechs = {}
        for v in viols:
            mechs.setdefault(v["mech"], []).append(v)
        for mech, vs in sorted(mechs.items()):
            v = vs[0]
            name = "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in mech)[:60]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, name))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, case=v["case"], label=v["label"], mech=mech,
                               detail=v["detail"], count=len(vs)), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
            print("  mechanism=%s case=%d scenario=%s occurrences=%d\n  %s" % (
                mech, v["case"], v["label"], len(vs), str(v["detail"])[:1500].replace("\n", "\n  ")))
            others = sorted({"%s(%d)" % (x["label"], x["case"]) for x in vs[1:] if x["label"] != v["label"]})
            if others:
                print("  also in: " + " ".join(others[:40]))
        code = 1
    elif inconc:
        print("INCONCLUSIVE property=%s" % prop)
        for x in inconc[:10]:
            print("  " + x)
        code = 3
    elif short:
        print("INCONCLUSIVE property=%s monitors not reached often enough: %s" % (prop, short))
        code = 3
    print("%s property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" % (
        {0: "HELD", 1: "BROKEN", 3: "INCONCLUSIVE"}[code], prop, tier, seed, len(results), evals, len(keys), wall))
    if os.environ.get("RVM_VERBOSE") == "1":
        print(json.dumps(events, indent=1)); print(json.dumps(labels, indent=1))
        slow = sorted(results, key=lambda r: -r["wall"])[:5]
        print("slowest:", [(r["idx"], r["label"], round(r["wall"], 1)) for r in slow])
    return code


if __name__ == "__main__":
    main()
