#!/usr/bin/env python3
"""Entry point: run the check of one property against /repo's working tree.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--facet NAME] [-n N]
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check failed.
"""

from __future__ import annotations

import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("COORDINAX_REPO", "/repo")


def child_env(mode: str, threads: int = 1) -> dict:
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1" if mode == "x64" else "0",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        EQX_ON_ERROR="raise",
        PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), HERE]),
        VERIF_MODE=mode,
    )
    env.pop("COORDINAX_ENABLE_RUNTIME_TYPECHECKING", None)
    return env


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("-n", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or 0))
    ap.add_argument("--scratch-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.replay:
        rep = json.load(open(a.replay))
        p = subprocess.run(
            [PY, os.path.join(HERE, "worker.py"), "replay", a.replay],
            env=child_env(rep["mode"]), cwd=VERIF,
        )
        if p.returncode == 1:
            print(f"VIOLATION property={rep['property']} replay={a.replay}")
        return p.returncode

    t0 = time.time()
    budget = 600.0 if tier == "quick" else 6 * 3600.0
    # The list of tasks (facet x mode x shard).
    out = subprocess.run(
        [PY, os.path.join(HERE, "worker.py"), "list", a.prop],
        env=child_env("x64"), cwd=VERIF, capture_output=True, text=True,
    )
    if out.returncode != 0:
        sys.stderr.write(out.stderr)
        return 2
    info = json.loads(out.stdout.strip().splitlines()[-1])
    tasks = []
    for f in info["facets"]:
        if a.facet and f["name"] != a.facet:
            continue
        total = a.n if a.n is not None else f[tier]
        nsh = f["shards"] if tier == "quick" else max(f["shards"], 4)
        for mode in f["modes"]:
            tot = total if mode == "x64" or len(f["modes"]) == 1 else max(1, int(total * f["f32_frac"]))
            if total == 0:
                tot = 0
            k = min(nsh, max(1, tot))
            for sh in range(k):
                tasks.append(
                    {"facet": f["name"], "mode": mode, "shard": sh,
                     "n": tot // k + (1 if sh < tot % k else 0)}
                )
    ncpu = os.cpu_count() or 4
    jobs = a.jobs or min(8, ncpu)
    # Static assignment: workers are per mode, tasks dealt out by size.
    bymode: dict[str, list] = {}
    for t in tasks:
        bymode.setdefault(t["mode"], []).append(t)
    tot_n = sum(t["n"] + 5 for t in tasks) or 1
    procs = []
    nworkers = {}
    for mode, ts in bymode.items():
        share = sum(t["n"] + 5 for t in ts) / tot_n
        nworkers[mode] = max(1, min(len(ts), round(jobs * share)))
    results = []
    rundir = os.path.join(VERIF, ".run", f"{a.prop}-{os.getpid()}")
    os.makedirs(rundir, exist_ok=True)
    import tempfile  # noqa: F401

    deadline = t0 + budget
    for mode, ts in bymode.items():
        # a shared queue: a directory of task files that workers claim by rename
        qd = os.path.join(rundir, f"q-{mode}")
        os.makedirs(qd)
        for i, t in enumerate(sorted(ts, key=lambda t: -t["n"])):
            json.dump(t, open(os.path.join(qd, f"{i:04d}.task"), "w"))
        for w in range(nworkers[mode]):
            outp = os.path.join(rundir, f"out-{mode}-{w}.jsonl")
            cmd = [PY, os.path.join(HERE, "worker.py"), "work", a.prop, qd, outp,
                   str(a.seed), str(deadline)]
            log = open(os.path.join(rundir, f"log-{mode}-{w}.txt"), "w")
            procs.append((subprocess.Popen(cmd, env=child_env(mode), cwd=VERIF,
                                           stdout=log, stderr=subprocess.STDOUT), outp, log))
    bad = []
    for p, outp, log in procs:
        try:
            p.wait(timeout=max(5.0, deadline + 120 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            bad.append(f"worker timed out ({outp})")
        log.close()
        if p.returncode not in (0, None):
            tail = open(log.name).read()[-3000:]
            bad.append(f"worker exit {p.returncode}: {tail}")
        if os.path.exists(outp):
            for line in open(outp):
                results.append(json.loads(line))
    if os.environ.get("VERIF_TIMING"):
        for r in results:
            print(f"   {r['facet']:16} {r['mode']} {r['shard']} n={r['evaluations']} {r['wall_s']}s", file=sys.stderr)
    done = {(r["facet"], r["mode"], r["shard"]) for r in results}
    for t in tasks:
        if (t["facet"], t["mode"], t["shard"]) not in done:
            bad.append(f"no result for {t}")

    # ---- verdict
    known = {}
    kf_path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf_path):
        known = {k["id"]: k for k in json.load(open(kf_path)) if k.get("status") == "known"}
    finfo = {f["name"]: f for f in info["facets"]}
    violations, known_lines = [], []
    for r in results:
        if r.get("harness_error"):
            bad.append(f"{r['facet']}: {r['harness_error']}")
        if r["failure"]:
            kid = finfo[r["facet"]]["known"]
            if kid and kid in known and known[kid]["property"] == a.prop:
                line = f"KNOWN-FINDING: property={a.prop} {known[kid]['what']}"
                if line not in known_lines:
                    known_lines.append(line)
                continue
            violations.append(r)
    rdir = os.path.join(VERIF, "replays")
    lines = []
    for r in violations:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.prop}-{r['facet']}-{r['mode']}-{r['shard']}.json")
        json.dump(
            {"property": a.prop, "facet": r["facet"], "mode": r["mode"], **r["failure"]},
            open(path, "w"), indent=1,
        )
        lines.append(f"VIOLATION property={a.prop} replay={path}")
        print(f"-- {a.prop}/{r['facet']} [{r['mode']}] fails: {r['failure']['error'][:700]}")
        print(f"   case: {json.dumps(r['failure']['case'])[:700]}")
    for kl in known_lines:
        print(kl)

    # ---- evidence
    keys = set()
    for r in results:
        keys.update(f"{r['facet']}|{r['mode']}|{k}" for k in r["keys"])
    per = {}
    for r in results:
        d = per.setdefault(r["facet"], {"evaluations": 0, "skipped": 0, "nontrivial": 0,
                                        "what": finfo[r["facet"]]["doc"], "labels": {}})
        d["evaluations"] += r["evaluations"]
        d["skipped"] += r["skipped"]
        d["nontrivial"] += len(r["keys"])
        if r["timed_out"]:
            d["time_limit_reached"] = True
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            txt = json.dumps(s)
            samples.append({"facet": r["facet"], "mode": r["mode"],
                            "case": s if len(txt) < 1500 else txt[:1500]})
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": info["rule"],
            "samples": samples[:24] or ["(fixed cases only)"],
            "skipped_out_of_domain": sum(r["skipped"] for r in results),
            "facets": per,
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if not a.scratch_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w"), indent=1)
    import shutil

    if not bad:
        shutil.rmtree(rundir, ignore_errors=True)
    print(f"{a.prop} {tier} seed={a.seed}: {ev['coverage']['evaluations']} cases, "
          f"{len(keys)} distinct non-trivial, {len(violations)} violations, "
          f"{len(known_lines)} known, {ev['wall_s']}s")
    if lines:
        for line in lines:
            print(line)
        return 1
    if bad:
        for b in bad:
            sys.stderr.write(b + "\n")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
