#!/opt/venv/bin/python
"""Run one check:  check.py C01 [--tier quick|thorough] [--seed N] [--jobs N] [--replay FILE]

exit 0: held on everything observed; exit 1 + VIOLATION line: violated; exit 2: inconclusive or broken check.
"""
import os
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import sys
sys.dont_write_bytecode = True
import argparse
import json
import multiprocessing as mp
import time
import traceback
from collections import Counter, defaultdict

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vmon import core, load  # noqa: E402


# number of cases in the quick tier, so that each check takes 15 to 30 s on 8 cores
QUICK = dict(C01=12, C02=8, C03=8, C04=6, C05=10, C06=5, C07=2, C08=12, C09=15, C10=6, C11=15, C12=14, C13=10, C14=6, C15=12, C16=20,
             C17=20, C18=6, C19=2, C20=5, C21=12, C22=2, C23=8, C24=2, C26=2)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import the code under test and all check modules")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases")
    ap.add_argument("--only", help="run only this scenario")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--failfast", action="store_true", help="stop at the first violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()

    if a.selftest:
        names = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "vmon", "checks")) if f.startswith("c") and f.endswith(".py"))
        for n in names:
            load.load(n)
        print("ready:", " ".join(names))
        return 0
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        core._init_worker(r["property"], r["seed"], r["tier"])
        res = core.run_case(r["scenario"], r["index"])
        print(res["verdict"], res["msg"])
        print(res["tb"])
        return {"held": 0, "violated": 1}.get(res["verdict"], 2)

    mod = load.load(a.prop)
    tasks = []
    for name, (fn, nq, nt) in mod.SCENARIOS.items():
        if a.only and name != a.only:
            continue
        if nt > 2 * nq:  # sampled, not enumerated
            nq = nq * QUICK.get(a.prop, 1)
            nt = max(nt, 12 * nq)
        n = nq if a.tier == "quick" else nt
        n = max(1, int(round(n * a.scale)))
        tasks += [(name, i) for i in range(n)]
    # interleave the scenarios, so that a run cut short by the deadline has still exercised all of them
    per = defaultdict(list)
    for t in tasks:
        per[t[0]].append(t)
    total = {k: len(v) for k, v in per.items()}
    tasks.sort(key=lambda t: ((t[1] + 0.5) / total[t[0]], t[0]))

    deadline = t0 + (540 if a.tier == "quick" else 7200)
    events, keys, counts, inconclusive, bad, samples, slow = Counter(), set(), Counter(), [], [], [], []
    ctx = mp.get_context("fork")
    done = 0
    with ctx.Pool(a.jobs, initializer=core._init_worker, initargs=(a.prop, a.seed, a.tier)) as pool:
        it = pool.imap_unordered(core._task, tasks, chunksize=1)
        while done < len(tasks):
            try:
                r = it.next(timeout=max(1, deadline - time.time()))
            except (StopIteration, mp.TimeoutError):
                break
            done += 1
            counts[r["scenario"]] += 1
            events.update(r["events"])
            keys.update(r["keys"])
            slow.append((r["t"], r["scenario"], r["index"]))
            if r["verdict"] == "violated":
                bad.append(r)
                if len(bad) >= (1 if a.failfast else 40):
                    break
            elif r["verdict"] == "inconclusive":
                inconclusive.append(r)
            if r["desc"] and sum(1 for s in samples if s["scenario"] == r["scenario"]) < 2:
                samples.append(dict(scenario=r["scenario"], index=r["index"], observed=r["desc"]))
        pool.terminate()

    wall = time.time() - t0
    # ---- classify
    known = [k for k in known_findings().get("findings", []) if k["property"] == a.prop]
    new, hit = [], {}
    for r in bad:
        m = [k for k in known if k["scenario"] == r["scenario"] and k["mechanism"] in r["msg"]]
        if m:
            hit[m[0]["id"]] = m[0]
        else:
            new.append(r)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")

    lines = []
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    by_sc = Counter()
    for r in new:
        by_sc[r["scenario"]] += 1
        if by_sc[r["scenario"]] > 2:
            continue
        path = os.path.join(HERE, "evidence", "replay", f"{a.prop}-{r['scenario']}-{r['index']}.json")
        core.dump(path, dict(property=a.prop, scenario=r["scenario"], index=r["index"], seed=a.seed, tier=a.tier,
                             message=r["msg"], traceback=r["tb"], observed=r["desc"],
                             command=f"/opt/venv/bin/python check.py {a.prop} --replay {path}"))
        lines.append((path, r))

    unreached = [m for m in getattr(mod, "REQUIRED", []) if not any(e.startswith(m) and n > 0 for e, n in events.items())]
    # a hooked function may be renamed or inlined without harm (reported only); the oracles have to have been reached
    missing = [m for m in unreached if not m.startswith("call:")]
    if not a.no_evidence:
        core.dump(os.path.join(HERE, "evidence", f"{a.prop}.json"), dict(
            property=a.prop, tier=a.tier, seed=a.seed, level="exploration", wall_s=round(wall, 2),
            violations=len(new),
            coverage=dict(evaluations=done, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:12],
                          planned_cases=len(tasks), cases_per_scenario=dict(counts),
                          monitor_events={k: v for k, v in sorted(events.items())},
                          inconclusive_cases=len(inconclusive), unreached_hooks=unreached, known_findings_seen=sorted(hit)),
            assumptions=mod.ASSUMPTIONS))
    if a.v:
        for s in sorted(slow, reverse=True)[:8]:
            print("slow", s)
        for k, v in sorted(events.items()):
            print("   ", k, v)
    for path, r in lines:
        print(f"  {r['scenario']} case {r['index']}: {r['msg'][:400]}")
    print(f"{a.prop} {a.tier} seed={a.seed}: {done}/{len(tasks)} cases, {len(keys)} distinct situations, "
          f"{sum(v for k, v in events.items() if k.startswith('oracle:'))} oracle decisions, "
          f"{sum(v for k, v in events.items() if k.startswith('call:'))} hooked calls, {len(new)} violations, {wall:.1f} s")
    if lines:
        for path, r in lines:
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if missing or not keys or len(inconclusive) > 0.02 * max(done, 1) or done < 0.25 * len(tasks):
        print(f"INCONCLUSIVE property={a.prop}: monitors not reached: {missing}; inconclusive cases: "
              f"{[(r['scenario'], r['index'], r['msg']) for r in inconclusive[:5]]}; {done}/{len(tasks)} cases ran")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
