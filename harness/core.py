"""Property-based testing harness: facets, cases, evidence, replay files.

A *property* (C01 ...) is decided by one or more *facets*.  A facet is a pair of a
Hypothesis strategy that draws a JSON-serialisable *case* and a function that runs the
case against /repo's code and an oracle, and raises on disagreement.  A failing case is
shrunk by Hypothesis, and the smallest failing case is the replay file.
"""

from __future__ import annotations

import hashlib
import json
import os
import time
import traceback
import warnings
import zlib
from collections.abc import Callable
from dataclasses import dataclass, field
from typing import Any

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(AssertionError):
    """The oracle disagrees with the code."""


class Skip(Exception):
    """The case is outside the property's domain (counted, not an error)."""


class _StopShrink(BaseException):
    """Raised to end shrinking when its time is used up."""


@dataclass
class Facet:
    prop: str
    name: str
    strategy: Any  # () -> hypothesis strategy
    run: Callable[[dict, "Ctx"], None]
    quick: int = 100  # examples per tier
    thorough: int = 1000
    modes: tuple[str, ...] = ("x64",)  # x64 / f32
    f32_frac: float = 0.34  # share of examples for the f32 mode
    shards: int = 1
    known: str | None = None  # id in known_findings.json: fixed-input facet
    cases: list | None = None  # a fixed list of cases, run before the generated ones
    doc: str = ""


FACETS: dict[str, list[Facet]] = {}
PROP_RULES: dict[str, str] = {}


def facet(prop: str, name: str, strategy: Any, **kw: Any):
    def deco(fn):
        FACETS.setdefault(prop, []).append(
            Facet(prop, name, strategy, fn, doc=(fn.__doc__ or "").strip(), **kw)
        )
        return fn

    return deco


@dataclass
class Ctx:
    """What one execution of a case can report."""

    mode: str = "x64"
    nontrivial: bool = False
    labels: list[str] = field(default_factory=list)

    @property
    def f32(self) -> bool:
        return self.mode == "f32"

    def nt(self, flag: bool = True) -> None:
        if flag:
            self.nontrivial = True

    def label(self, s: str) -> None:
        self.labels.append(s)

    def tol(self, x64: float, f32: float) -> float:
        return f32 if self.f32 else x64


def check(cond: bool, msg: str | Callable[[], str]) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def case_key(case: Any) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def short(obj: Any, n: int = 600) -> str:
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True)
    return s if len(s) <= n else s[:n] + "..."


def run_one(fc: Facet, case: dict, mode: str) -> Ctx:
    ctx = Ctx(mode=mode)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fc.run(case, ctx)
    return ctx


def run_facet(
    fc: Facet,
    *,
    mode: str,
    n: int,
    seed: int,
    shard: int,
    deadline: float,
    shrink_s: float = 40.0,
) -> dict:
    """Run one shard of one facet; return a result dict."""
    import hypothesis as hy
    from hypothesis import HealthCheck, Phase, settings

    res: dict[str, Any] = {
        "facet": fc.name,
        "mode": mode,
        "shard": shard,
        "evaluations": 0,
        "skipped": 0,
        "keys": [],
        "samples": [],
        "labels": {},
        "failure": None,
        "timed_out": False,
    }
    seen: set[str] = set()
    t0 = time.time()
    best: dict[str, Any] = {}
    ran: set[str] = set()  # cases that passed: the generator repeats itself

    def execute(case: dict) -> None:
        if best and time.time() - best["t"] > shrink_s:
            raise _StopShrink
        if not best and time.time() > deadline:
            res["timed_out"] = True
            raise _StopShrink
        key = case_key(case)
        if key in ran:
            return
        if not best and n > 0 and len(ran) >= n + len(fc.cases or ()):
            raise _StopShrink
        try:
            ctx = run_one(fc, case, mode)
        except Skip:
            res["skipped"] += 1
            ran.add(key)
            return
        except Exception as e:  # noqa: BLE001
            new = {
                "case": case,
                "t": best.get("t", time.time()),
                "error": f"{type(e).__name__}: {str(e)[:1500]}",
                "traceback": traceback.format_exc()[-6000:],
            }
            best.clear()
            best.update(new)
            raise
        res["evaluations"] += 1
        ran.add(key)
        for lab in ctx.labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if ctx.nontrivial:
            if key not in seen:
                seen.add(key)
                if len(res["samples"]) < 2 and len(seen) % 7 == 1:
                    res["samples"].append(case)

    try:
        for case in fc.cases or []:
            if shard == 0:
                execute(case)
        if n > 0 and fc.strategy is not None:
            s = (seed * 1_000_003 + zlib.crc32(f"{fc.prop}/{fc.name}/{mode}/{shard}".encode())) % (2**63)

            @hy.seed(s)
            @settings(
                max_examples=2 * n,
                database=None,
                deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                print_blob=False,
                verbosity=hy.Verbosity.quiet,
            )
            @hy.given(fc.strategy())
            def test(case):
                execute(case)

            test()
    except _StopShrink:
        pass
    except Exception as e:  # noqa: BLE001
        if not best:  # not raised by the code under test: an error of the harness
            res["harness_error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-4000:]}"
    if best:
        res["failure"] = {k: v for k, v in best.items() if k != "t"}
    res["keys"] = sorted(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    return res
