"""Plumbing shared by all checks: worker pool, evidence, known findings, replay files.

A check module provides
    TITLE, RULE            text for the evidence file
    shards(tier, seed)     list of picklable work items (an exhaustive partition of its space)
    run(shard)             -> Result (runs in a worker process)
    replay(case)           -> (ok, text), re-runs one recorded case on the real code
"""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Result:
    states: int = 0  # nodes of the explored transition system / derivation tree
    transitions: int = 0  # edges of it
    traces: int = 0  # complete behaviours replayed on the implementation
    evaluations: int = 0  # numbers compared with the reference
    outcomes: set = field(default_factory=set)  # distinct observed answers (rounded hashes)
    max_err: float = 0.0
    samples: list = field(default_factory=list)
    violations: list = field(default_factory=list)  # dicts with at least key, what, case
    notes: dict = field(default_factory=dict)
    label: str = ""

    def merge(self, o: "Result"):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.evaluations += o.evaluations
        self.outcomes |= o.outcomes
        self.max_err = max(self.max_err, o.max_err)
        self.samples += o.samples[:1]
        self.violations += o.violations
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def violate(self, key, what, case):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, what=what, case=case))
        self.notes["violations_total"] = self.notes.get("violations_total", 0) + 1


class ImplError(Exception):
    """The implementation raised on an input the property covers."""


def _worker(modname, shard, verbose):
    sys.path.insert(0, VERIF)
    import importlib

    mod = importlib.import_module(modname)
    t0 = time.time()
    try:
        r = mod.run(shard)
    except BaseException:  # a harness error, not a verdict
        return ("error", shard, traceback.format_exc(), time.time() - t0)
    return ("ok", shard, r, time.time() - t0)


LIMIT = {"quick": 840, "thorough": 6 * 3600}  # seconds; a lost worker must not hang the check


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line + " ":
                # KNOWN-FINDING: property=C01 key=<key> <text>
                parts = line.split(None, 3)
                known.append((parts[2].split("=", 1)[1], parts[3] if len(parts) > 3 else ""))
    return known


def _weight(s):
    return s.get("weight", 1) if isinstance(s, dict) else 1


def main(prop, mod, tier, seed, jobs, verbose=False, only=None):
    t0 = time.time()
    shards = mod.shards(tier, seed)
    if only is not None:
        shards = [s for s in shards if only in json.dumps(s, default=str)]
    shards = sorted(shards, key=lambda s: -_weight(s))
    total = Result()
    errors = []
    timing = []
    ctx = mp.get_context("spawn")
    with ctx.Pool(min(jobs, max(1, len(shards)))) as pool:
        hs = [pool.apply_async(_worker, (mod.__name__, s, verbose)) for s in shards]
        for h in hs:
            st, s, r, dt = h.get(timeout=max(1.0, LIMIT[tier] - (time.time() - t0)))
            timing.append((dt, json.dumps(s, default=str)[:140]))
            if st == "error":
                errors.append((s, r))
                continue
            total.merge(r)
            if verbose:
                print(
                    f"  {dt:6.1f}s err={r.max_err:.1e} traces={r.traces} {json.dumps(s, default=str)[:110]}",
                    flush=True,
                )
    wall = time.time() - t0
    if errors:
        for s, tb in errors[:3]:
            print(f"HARNESS ERROR in shard {s}\n{tb}", file=sys.stderr)

    known = load_known(prop)
    fresh, seen = [], set()
    for v in total.violations:
        hit = [k for k in known if k[0] == v["key"]]
        if hit:
            if v["key"] not in seen:
                print(f"KNOWN-FINDING: property={prop} key={v['key']} {hit[0][1]}")
            seen.add(v["key"])
        else:
            fresh.append(v)

    cov = dict(
        states=total.states,
        transitions=total.transitions,
        traces_validated_against_impl=total.traces,
        evaluations=total.evaluations,
        distinct_nontrivial=len(total.outcomes),
        rule=mod.RULE,
        exhaustive=True,
        max_relative_error=total.max_err,
        shards=len(shards),
        samples=total.samples[:12],
        notes=total.notes,
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(mod, "LEVEL", "model_checking"),
        coverage=cov,
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    print(
        f"{prop} {tier}: states={total.states} transitions={total.transitions} "
        f"traces={total.traces} evaluations={total.evaluations} outcomes={len(total.outcomes)} "
        f"max_rel_err={total.max_err:.2e} wall={wall:.1f}s notes={total.notes}"
    )
    if verbose:
        for dt, s in sorted(timing, reverse=True)[:8]:
            print(f"   slow {dt:6.1f}s {s}")
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        fresh = sorted(fresh, key=lambda v: len(json.dumps(v["case"], default=str)))
        with open(path, "w") as f:
            json.dump(dict(property=prop, violations=fresh), f, indent=1, default=str)
        for v in fresh[:5]:
            print(f"  {v['key']}: {v['what']}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        return 1
    if errors:
        return 2
    if total.traces == 0:
        print("nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(prop, mod, path):
    data = json.load(open(path))
    bad = 0
    for v in data["violations"]:
        ok, text = mod.replay(v["case"])
        print(("ok      " if ok else "VIOLATED"), v["key"], text)
        bad += not ok
    if bad:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
