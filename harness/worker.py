"""Worker process: imports the code under test and runs facets."""

from __future__ import annotations

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def load(prop: str):
    import core

    importlib.import_module(f"props.{prop.lower()}")
    return core


def main() -> int:
    cmd = sys.argv[1]
    if cmd == "list":
        core = load(sys.argv[2])
        mod = sys.modules[f"props.{sys.argv[2].lower()}"]
        print(json.dumps({
            "facets": [
                {"name": f.name, "quick": f.quick, "thorough": f.thorough,
                 "modes": list(f.modes), "shards": f.shards, "known": f.known,
                 "f32_frac": f.f32_frac, "doc": f.doc}
                for f in core.FACETS[sys.argv[2]]
            ],
            "rule": getattr(mod, "RULE", ""),
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
        }))
        return 0
    if cmd == "work":
        _, _, prop, qd, outp, seed, deadline = sys.argv
        core = load(prop)
        mode = os.environ["VERIF_MODE"]
        byname = {f.name: f for f in core.FACETS[prop]}
        with open(outp, "w") as out:
            while True:
                task = None
                for fn in sorted(os.listdir(qd)):
                    if not fn.endswith(".task"):
                        continue
                    src = os.path.join(qd, fn)
                    dst = src + f".{os.getpid()}"
                    try:
                        os.rename(src, dst)
                    except OSError:
                        continue
                    task = json.load(open(dst))
                    break
                if task is None:
                    return 0
                r = core.run_facet(
                    byname[task["facet"]], mode=mode, n=task["n"], seed=int(seed),
                    shard=task["shard"], deadline=float(deadline),
                )
                out.write(json.dumps(r) + "\n")
                out.flush()
    if cmd == "replay":
        rep = json.load(open(sys.argv[2]))
        core = load(rep["property"])
        fc = {f.name: f for f in core.FACETS[rep["property"]]}[rep["facet"]]
        try:
            core.run_one(fc, rep["case"], rep["mode"])
        except core.Skip:
            print("case skipped")
            return 0
        except Exception as e:  # noqa: BLE001
            import traceback

            traceback.print_exc()
            print(f"{type(e).__name__}: {str(e)[:1500]}")
            return 1
        print("replayed: no violation")
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
