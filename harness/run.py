"""Check runner:  python -W ignore harness/run.py <PROPERTY>   (VERIF_SEED, VERIF_TIER from the environment)

exit 0  held on everything explored
exit 1  VIOLATION line printed, replay file written
exit 2  the check itself failed or ran out of time (says nothing about the property)
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env                                            # noqa: E402
import importlib                                                   # noqa: E402
import json                                                        # noqa: E402
import multiprocessing as mp                                       # noqa: E402
import shutil                                                      # noqa: E402
import signal                                                      # noqa: E402
import tempfile                                                    # noqa: E402
import time                                                        # noqa: E402
import traceback                                                   # noqa: E402
import warnings                                                    # noqa: E402

warnings.simplefilter("ignore")
from harness import core                                           # noqa: E402

QUICK_BUDGET_S = 780
THOROUGH_BUDGET_S = 6 * 3600
# how many times the number of quick cases written at each sub-check, by what a case of the property costs: every quick check
# then takes about 15 to 60 s on eight cores, an order of magnitude less than it is given
QUICK_FACTOR = {"C01": 2, "C02": 1.5, "C03": 4, "C04": 1.3, "C05": 4, "C06": 4, "C07": 1.2, "C08": 1.5, "C09": 2, "C10": 1.5, "C11": 1.5,
                "C12": 1.5, "C13": 2, "C14": 4, "C15": 4, "C16": 3, "C17": 4, "C18": 4, "C19": 4, "C20": 2.5, "C21": 2, "C22": 4, "C23": 2.5,
                "C24": 2, "C25": 2.5, "C26": 1.2, "C27": 4, "C28": 2.5, "C29": 4, "C30": 4, "C31": 2.5}


def preload():
    """third-party modules that take long to import, once for all workers"""
    for name in ("numpy", "scipy.ndimage", "scipy.interpolate", "matplotlib.pyplot", "pandas", "seaborn"):
        try:
            importlib.import_module(name)
        except Exception:       # noqa
            pass


def load_property(prop):
    importlib.import_module("checks." + prop.lower())
    return core.REGISTRY[prop]


def _silence():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _worker(conn, prop, name, n, seed, root, known):
    _silence()
    warnings.simplefilter("ignore")
    try:
        s = core.REGISTRY[prop][name]
        d = tempfile.mkdtemp(prefix="job-", dir=root)
        os.chdir(d)
        res = core.Campaign(s, n, seed, d, known).run().result()
        conn.send(("ok", res))
    except BaseException as e:      # noqa
        conn.send(("err", "".join(traceback.format_exception(type(e), e, e.__traceback__))))
    finally:
        conn.close()


def main(argv):
    prop = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    only = [a[len("--only="):] for a in argv if a.startswith("--only=")]
    scale = float(([a[len("--scale="):] for a in argv if a.startswith("--scale=")] or ["1"])[0])
    t0 = time.time()
    known = core.load_known().get(prop, {})
    root = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    evidence = os.path.join(env.VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    replay_dir = os.path.join(env.VERIF, "evidence", "replay")
    rc = 2
    results, failures, errors = [], [], []
    preload()

    try:
        # ---- importing the code under test is part of the check ---------------------------------------------------
        try:
            subs = load_property(prop)
        except BaseException as e:      # noqa
            if core.in_repo(e.__traceback__) or (isinstance(e, SyntaxError) and str(e.filename or "").startswith(env.REPO)):
                os.makedirs(replay_dir, exist_ok=True)
                path = os.path.join(replay_dir, "%s.json" % prop)
                msg = "importing the code under test failed: %s: %s" % (type(e).__name__, e)
                with open(path, "w") as f:
                    json.dump({"property": prop, "mode": "import", "message": msg}, f, indent=1)
                write_evidence(evidence, prop, tier, seed, [], t0, 1, {}, note=msg)
                print(msg)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            raise

        jobs = []
        for s in subs.values():
            if only and s.name not in only:
                continue
            n = s.quick if tier == "quick" else s.thorough
            n = max(1, int(n * scale * (QUICK_FACTOR.get(prop, 1) if tier == "quick" else 1)))
            shards = 1 if tier == "quick" else max(1, min(8, n // 200))
            # split long quick campaigns too, so that eight cores are used
            if tier == "quick":
                shards = max(1, min(8, n // 40))
            for k in range(shards):
                m = n // shards + (1 if k < n % shards else 0)
                jobs.append((s.name, m, k, shards))
        jobs.sort(key=lambda j: -j[1])
        budget = QUICK_BUDGET_S if tier == "quick" else THOROUGH_BUDGET_S
        ctx = mp.get_context("fork")
        running = {}
        pending = list(jobs)
        stop = False
        while pending or running:
            while pending and len(running) < 8 and not stop:
                name, m, k, shards = pending.pop(0)
                a, b = ctx.Pipe(duplex=False)
                sd = core.shard_seed(seed, prop, name, k)
                p = ctx.Process(target=_worker, args=(b, prop, name, m, sd, root, tuple(known)))
                p.start()
                b.close()
                running[p] = (a, name, m, k, sd)
            ready = mp.connection.wait([v[0] for v in running.values()], timeout=1.0)
            for p in list(running):
                a, name, m, k, sd = running[p]
                if a in ready:
                    try:
                        kind, payload = a.recv()
                    except EOFError:
                        p.join()
                        kind, payload = "died", p.exitcode
                    p.join()
                    a.close()
                    del running[p]
                    if kind == "ok":
                        payload["seed"] = sd
                        payload["n"] = m
                        results.append(payload)
                        if payload["failure"] is not None:
                            failures.append((name, sd, m, payload["failure"]))
                            stop = True
                            pending = []
                    elif kind == "died":
                        if payload in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS):
                            failures.append((name, sd, m, (None, "the process running the code died of signal %d"
                                                           % -payload)))
                        else:
                            errors.append("%s: worker ended with %s" % (name, payload))
                        stop = True
                        pending = []
                    else:
                        errors.append("%s:\n%s" % (name, payload))
                        stop = True
                        pending = []
            if time.time() - t0 > budget:
                errors.append("time budget of %d s used up; inconclusive" % budget)
                break
        for p in running:
            p.terminate()
            p.join()

        if failures:
            failures.sort(key=lambda f: (f[3][0] is None, f[0]))
            name, sd, m, (case, msg) = failures[0]
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, "%s.json" % prop)
            rep = {"property": prop, "sub": name, "message": msg, "mode": "case", "case": case}
            if case is None or not (msg.startswith("no result") or _reproduces(prop, name, case, root, known)):
                rep["mode"] = "campaign"          # depends on the cases before it
                rep["seed"], rep["n"] = sd, m
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            write_evidence(evidence, prop, tier, seed, results, t0, len(failures), subs)
            print("%s / %s: %s" % (prop, name, msg))
            print("minimal case: %s" % (json.dumps(case)[:2000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
        elif errors:
            print("CHECK ERROR (no verdict)\n" + "\n".join(errors))
            rc = 2
        else:
            hits = {}
            for r in results:
                for k, v in r["known_hits"].items():
                    hits[k] = hits.get(k, 0) + v
            for k, what in known.items():
                print("KNOWN-FINDING: property=%s %s (%s; met %d times in this run)" % (prop, k, what, hits.get(k, 0)))
            write_evidence(evidence, prop, tier, seed, results, t0, 0, subs)
            ev = sum(r["evaluations"] for r in results)
            nt = sum(len(set(r["nontrivial"])) for r in results)
            print("%s held: %d cases, %d non-trivial, %.1f s" % (prop, ev, nt, time.time() - t0))
            if "-v" in argv:
                for r in sorted(results, key=lambda r: r["sub"]):
                    print("  %-34s n=%-6d nontrivial=%-6d %s" % (r["sub"], r["evaluations"], len(r["nontrivial"]),
                                                               json.dumps(r["labels"], sort_keys=True)))
            rc = 0
    except BaseException:      # noqa
        print("CHECK ERROR (no verdict)\n" + traceback.format_exc())
        rc = 2
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return rc


def _reproduces(prop, name, case, root, known):
    """Run the shrunk case on its own in a fresh process."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)

    def child():
        _silence()
        d = tempfile.mkdtemp(prefix="rep-", dir=root)
        os.chdir(d)
        try:
            _, v = core.run_case(core.REGISTRY[prop][name], case, d)
            b.send(v is not None and not (v.key is not None and v.key in known))
        except BaseException:      # noqa
            b.send(False)

    p = ctx.Process(target=child)
    p.start()
    b.close()
    ok = False
    try:
        if a.poll(120):
            ok = a.recv()
    except EOFError:
        ok = True          # died again
    if p.is_alive():
        p.terminate()
    p.join()
    return ok


def write_evidence(path, prop, tier, seed, results, t0, violations, subs, note=None):
    per = {}
    for r in results:
        d = per.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": []})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"].update(r["nontrivial"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        d["samples"].extend(r["samples"])
    cov = {
        "evaluations": sum(d["evaluations"] for d in per.values()),
        "distinct_nontrivial": sum(len(d["nontrivial"]) for d in per.values()),
        "rule": "; ".join("%s: %s" % (n, subs[n].rule) for n in per) if per else (note or "no case was run"),
        "samples": [{"sub": n, "case": c} for n, d in per.items() for c in d["samples"][:2]],
        "per_sub_check": {n: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nontrivial"]),
                              "classes": d["labels"]} for n, d in per.items()},
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": core.ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - t0, 2),
           "violations": violations}
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, path)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main(sys.argv)
    sys.stdout.flush()
    os._exit(code)
