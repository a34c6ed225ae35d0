#!/usr/bin/env python3
"""Make planted bugs from a spec file, in scratch copies of /repo, and try them.

usage: plant.py SPEC.py [ID ...] [--no-suite] [--no-check]
SPEC.py defines PLANTS = [dict(id=, prop=, edits=[(file, old, new)], demo=, needs=, breaks=)].
Writes /verif/seeded/<id>/ and prints: demo on clean / patched, suite failures, check verdict.
`plant.py --seeded [ID ...]` re-checks the kept ones (demo and check; --suite for the tests too).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"
HARN = "/verif/harness"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def env_for(copy):
    e = dict(os.environ)
    e.update(PYTHONPATH=f"{copy}/src", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e


def copy_repo(i):
    d = f"/tmp/plant/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def removed_lines(patch):
    """(file, text, in the original commit) of each line the patch takes away."""
    first = sh(["git", "-C", "/repo", "log", "--reverse", "--format=%h", "--grep=^fix:"]).stdout.split()[0]
    f, old = None, ""
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            old = set(sh(["git", "-C", "/repo", "show", f"{first}^:{f}"]).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            yield f, l[1:], l[1:] in old


def one(spec, suite, chk):
    i = spec["id"]
    out = [f"== {i} ({spec['prop']})"]
    d = copy_repo(i)
    folder = f"{SEED}/{i}"
    if "edits" in spec:
        for f, old, new in spec["edits"]:
            p = f"{d}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return "\n".join(out + [f"   old text occurs {s.count(old)} times in {f}: {old[:60]!r}"])
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "-C", d, "diff"]).stdout
        late = [l for l in removed_lines(patch) if not l[2]]
        if late:
            out.append("   NOT ORIGINAL: " + "; ".join(f"{f}: {t.strip()[:60]}" for f, t, _ in late))
        os.makedirs(folder, exist_ok=True)
        open(f"{folder}/patch.diff", "w").write(patch)
        open(f"{folder}/demo.py", "w").write(spec["demo"].lstrip("\n"))
        open(f"{folder}/demo.sh", "w").write(
            '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\n'
            'export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
            f'exec {PY} "$d/demo.py"\n')
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(f"{folder}/meta.json", "w"), indent=1)
    else:
        r = sh(["git", "-C", d, "apply", f"{folder}/patch.diff"])
        if r.returncode:
            return "\n".join(out + ["   does not apply: " + r.stderr])
    r0 = sh(["bash", f"{folder}/demo.sh"], cwd="/repo", env=env_for("/repo"))
    r1 = sh(["bash", f"{folder}/demo.sh"], cwd=d, env=env_for(d))
    out.append(f"   demo clean {r0.returncode} patched {r1.returncode} " + (r1.stderr.strip().splitlines() or [""])[-1][:150])
    if r0.returncode:
        out.append("   CLEAN DEMO FAILS: " + r0.stderr[-600:])
    if suite:
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300",
                "--continue-on-collection-errors", "--tb=no", "--no-showlocals", "src", "docs", "tests"],
               cwd=d, env=env_for(d))
        tail = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) or " passed" in l]
        out.append("   suite: " + " | ".join(t[:200] for t in tail[-6:]))
    if chk:
        e = dict(os.environ, COORDINAX_REPO=d, VERIF_JOBS=os.environ.get("VERIF_JOBS", "4"))
        r = sh([PY, f"{HARN}/run.py", spec["prop"], "--scratch-evidence"], env=e, cwd="/verif")
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violat" in l.lower()]
        out.append(f"   check exit {r.returncode} " + " | ".join(l[:300] for l in lines[:3]) + r.stderr[-300:])
    shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--seeded" in sys.argv:
        ids = args or sorted(os.listdir(SEED))
        plants = [dict(id=i, prop=json.load(open(f"{SEED}/{i}/meta.json"))["property"]) for i in ids]
        suite = "--suite" in sys.argv
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        plants = [p for p in ns["PLANTS"] if not args[1:] or p["id"] in args[1:]]
        suite = "--no-suite" not in sys.argv
    chk = "--no-check" not in sys.argv
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for s in ex.map(lambda p: one(p, suite, chk), plants):
            print(s, flush=True)


main()
