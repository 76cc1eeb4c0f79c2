"""Entry point of every check: ``run.sh C07``; see DESIGN.md."""
from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import json
import os
import pathlib
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import deps

deps.ensure()
import core

ROOT = pathlib.Path(core.ROOT)


def find_module(prop: str) -> str:
    for p in sorted((ROOT / "vp").glob(f"{prop.lower()}_*.py")):
        return p.stem
    raise core.HarnessError(f"no check module for {prop}")


def known_findings(prop: str) -> list[dict]:
    path = ROOT / "known_findings.json"
    if not path.exists():
        return []
    return [e for e in json.loads(path.read_text())["findings"] if e["property"] == prop]


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--inline", action="store_true", help="no forking (debugging)")
    args = ap.parse_args()
    prop = args.property
    t0 = time.monotonic()
    tier = "thorough" if args.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    core.prepare_environment()
    mod = importlib.import_module(find_module(prop))
    facets: list[core.Facet] = list(mod.FACETS)
    by_name = {f.name: f for f in facets}

    replay_dir = ROOT / "evidence" / "replay"
    if args.replay:
        data = json.loads(pathlib.Path(args.replay).read_text())
        facet = by_name[data["facet"]]
        if facet.setup:
            facet.setup()
        try:
            core.run_case(facet, data["case"], None)
        except (Exception, core.CaseHang) as exc:
            traceback.print_exc()
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        finally:
            core.cleanup_scratch()
        print("replayed case passes")
        return 0
    if args.facet:
        facets = [by_name[n] for n in args.facet]

    # known findings: replayed deterministically; the generators exclude their class by construction
    for entry in known_findings(prop):
        facet = by_name[entry["facet"]]
        if facet.setup:
            facet.setup()
        try:
            core.run_case(facet, entry["case"], None)
        except Exception as exc:
            if entry["error_contains"] in f"{type(exc).__name__}: {exc}":
                print(f"KNOWN-FINDING: property={prop} {entry['what']}")

    ncpu = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get("VP_BUDGET", "0")) or (330.0 if tier == "quick" else 2700.0)
    shrink_seconds = float(os.environ.get("VP_SHRINK", "0")) or (60.0 if tier == "quick" else 240.0)
    work = pathlib.Path(tempfile.mkdtemp(prefix=f"vp-{prop}-"))
    jobs = []
    # Interleave facets so that every facet gets a share even if the budget runs out.
    per_facet = []
    for f in facets:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * args.scale))
        shards = max(1, min(f.shards, n))
        lst = []
        for s in range(shards):
            ex = n // shards + (1 if s < n % shards else 0)
            h = hashlib.sha256(f"{prop}/{f.name}/{seed}/{s}".encode()).digest()
            lst.append((f, s, ex, int.from_bytes(h[:6], "big")))
        per_facet.append(lst)
    for i in range(max(len(x) for x in per_facet)):
        for lst in per_facet:
            if i < len(lst):
                jobs.append(lst[i])
    deadline = t0 + budget
    running: dict[int, tuple] = {}
    queue = collections.deque(jobs)
    results = []
    violation = None
    errors = []
    truncated = 0

    def reap(pid: int, status: int) -> None:
        nonlocal violation
        facet, shard, out, start = running.pop(pid)
        try:
            with contextlib_suppress():
                os.killpg(pid, signal.SIGKILL)
        except Exception:
            pass
        if not os.path.exists(out):
            errors.append(f"worker {facet.name}/{shard} died (status {status}) without a result; log: "
                          + _tail(out + ".log"))
            return
        res = json.load(open(out))
        results.append(res)
        if res["status"] in ("violation", "shrinking") and res.get("failure"):
            violation = violation or res
        elif res["status"] == "error":
            errors.append(f"{facet.name}/{shard}: {res.get('error')}")
        elif res["status"] == "running":
            errors.append(f"worker {facet.name}/{shard} died (status {status}); log: " + _tail(out + ".log"))

    shrink_grace = None
    try:
        while queue or running:
            while queue and len(running) < ncpu and violation is None:
                facet, shard, ex, sd = queue.popleft()
                if time.monotonic() > deadline - 1:
                    truncated += 1
                    continue
                out = str(work / f"{facet.name}-{shard}.json")
                if args.inline:
                    core.run_facet(facet, seed=sd, examples=ex, deadline=deadline, out_path=out, shard=shard,
                                   shrink_seconds=shrink_seconds)
                    running[-1] = (facet, shard, out, 0)
                    facet_, _, _, _ = running.pop(-1)
                    res = json.load(open(out))
                    results.append(res)
                    if res["status"] == "violation":
                        violation = res
                    elif res["status"] == "error":
                        errors.append(res["error"])
                    continue
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        fd = os.open(out + ".log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                        os.dup2(fd, 1)
                        os.dup2(fd, 2)
                        tempfile.tempdir = str(work)
                        core._SCRATCH = None
                        core.run_facet(facet, seed=sd, examples=ex, deadline=deadline, out_path=out, shard=shard,
                                       shrink_seconds=shrink_seconds)
                        sys.stdout.flush()
                        sys.stderr.flush()
                    except BaseException:
                        traceback.print_exc()
                        sys.stderr.flush()
                        os._exit(3)
                    os._exit(0)
                with contextlib_suppress():
                    os.setpgid(pid, pid)
                running[pid] = (facet, shard, out, time.monotonic())
            if not running:
                break
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid and pid in running:
                reap(pid, status)
                continue
            now = time.monotonic()
            if violation is not None:
                break
            if now > deadline + 240:
                # A worker is stuck well past the budget (a case within its hang limit, or shrinking).
                for pid_, (facet, shard, out, start) in list(running.items()):
                    with contextlib_suppress():
                        os.killpg(pid_, signal.SIGKILL)
                    with contextlib_suppress():
                        os.waitpid(pid_, 0)
                    running.pop(pid_)
                    truncated += 1
                    if os.path.exists(out):
                        res = json.load(open(out))
                        results.append(res)
                        if res.get("failure"):
                            violation = violation or res
                break
            time.sleep(0.02)
    finally:
        for pid_, (facet, shard, out, start) in list(running.items()):
            with contextlib_suppress():
                os.killpg(pid_, signal.SIGKILL)
            with contextlib_suppress():
                os.waitpid(pid_, 0)
            if os.path.exists(out):
                with contextlib_suppress():
                    results.append(json.load(open(out)))

    evaluations = sum(r["stats"]["evaluations"] for r in results if "stats" in r)
    nontrivial = set()
    labels: collections.Counter[str] = collections.Counter()
    samples = {}
    skipped = 0
    facet_evals: collections.Counter[str] = collections.Counter()
    for r in results:
        if "stats" not in r:
            continue
        nontrivial.update(r["stats"]["nontrivial"])
        labels.update(r["stats"]["labels"])
        skipped += r["stats"]["skipped"]
        facet_evals[r["facet"]] += r["stats"]["evaluations"]
        for s in r["stats"]["samples"]:
            samples.setdefault(s["facet"], [])
            if len(samples[s["facet"]]) < 2:
                samples[s["facet"]].append(s)
    flat_samples = [s for lst in samples.values() for s in lst][:12]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
            "samples": flat_samples, "evaluations_per_facet": dict(facet_evals),
            "classes": dict(sorted(labels.items())),
            "cases_not_run_because_of_time_budget": skipped, "shards_cut_by_time_budget": truncated,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + [
            "hypothesis search over generated cases: absence of a counterexample is not proof",
            "python 3.12.3 zipfile relative-seek defect is corrected in the harness process",
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    rc = 0
    if violation is not None:
        replay_dir.mkdir(parents=True, exist_ok=True)
        path = replay_dir / f"{prop}-{violation['facet']}.json"
        fail = violation["failure"]
        path.write_text(json.dumps({"property": prop, "facet": violation["facet"], "case": fail["case"],
                                    "error": fail["error"], "traceback": fail["traceback"], "seed": seed,
                                    "replay_cmd": f"./run.sh {prop} --replay {path}"}, indent=1))
        print(fail["traceback"][-4000:])
        print("minimal case:", json.dumps(fail["case"])[:4000])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        print("\n".join(errors)[:8000])
        print(f"CHECK-ERROR property={prop}: {len(errors)} worker error(s)")
        rc = 2
    else:
        print(f"OK property={prop} tier={tier} seed={seed} evaluations={evaluations} "
              f"distinct_nontrivial={len(nontrivial)} wall={evidence['wall_s']}s skipped={skipped}")
    shutil.rmtree(work, ignore_errors=True)
    return rc


class contextlib_suppress:
    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, Exception)


def _tail(path: str) -> str:
    try:
        return open(path).read()[-3000:]
    except OSError:
        return "<no log>"


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 3
    finally:
        core.cleanup_scratch()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
