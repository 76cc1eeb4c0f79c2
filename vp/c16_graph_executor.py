"""C16: the graph executor runs everything runnable exactly once and reports it."""
from __future__ import annotations

import os
import time
import uuid

import hypothesis.strategies as st

import core
import qgs
import synth
from core import Facet, expect, expect_eq

LEVEL = "exploration"
RULE = ("generated quantum graphs (new or legacy form) with a scripted outcome per quantum (success, slow, ordinary, repeatable and "
        "fatal errors, huge error messages and, with worker processes, exits, signals and hangs), optional extra ordering edges, "
        "fail-fast on or off, run in-process or with 2-4 worker processes; the recorded history and the report are compared with "
        "the outcome implied by the graph; non-trivial if some quantum fails and the graph has an edge")


@st.composite
def base(draw, actions, max_tasks, max_det, fail=None, p_fail=4):
    n = draw(st.integers(1, 12))
    return {"graph": draw(synth.graph_specs(max_tasks=max_tasks, max_det=max_det, init=draw(st.integers(0, 3)) == 0)),
            "actions": [draw(actions) if draw(st.integers(0, p_fail)) == 0 else "ok" for _ in range(n)],
            "fail_fast": draw(st.integers(0, 3)) == 0, "legacy": draw(st.integers(0, 4)) == 0}


@st.composite
def fixups(draw):
    k = draw(st.sampled_from(["none", "none", "none", "dataid", "edges", "legacy", "cycle"]))
    if k == "dataid":
        return {"kind": k, "task": draw(st.integers(0, 3)), "dims": draw(st.sampled_from([["instrument"], ["detector"], ["detector", "instrument"], "physical_filter"])),
                "reverse": draw(st.booleans())}
    if k in ("edges", "legacy"):
        return {"kind": k, "pairs": draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=3))}
    return {"kind": k}


@st.composite
def cases(draw):
    c = draw(base(st.sampled_from(["fail", "fail", "bigfail", "repeatable", "invalid"]), 4, 3))
    c["fixup"] = draw(fixups())
    return c


@st.composite
def mp_cases(draw):
    acts = ["fail", "repeatable", "exit3", "kill", "slow60", "slow200", "bigfail"]
    hang = draw(st.integers(0, 11)) == 0
    if draw(st.integers(0, 5)) == 0:
        acts.append("invalid")
    c = draw(base(st.sampled_from(acts), 3, 2, p_fail=3))
    if hang:
        c["actions"] = list(c["actions"]) + [draw(st.sampled_from(["hang", "hang-hard"]))]
    c["hang"] = hang
    c["procs"] = draw(st.integers(2, 4))
    c["fixup"] = {"kind": "none"}
    return c


class Expected:
    """What the graph and the scripted outcomes imply."""

    def __init__(self, s, case, extra_edges=()):
        keys = sorted(s.quanta, key=lambda k: str(k))
        self.action = {k: case["actions"][i % len(case["actions"])] for i, k in enumerate(keys)}
        self.edges = set(s.edges) | set(extra_edges)
        self.up = {k: set() for k in keys}
        self.down = {k: set() for k in keys}
        for a, b in self.edges:
            self.up[b].add(a)
            self.down[a].add(b)
        self.status = {}
        for k in self.topo(keys):
            if any(self.status[u] != "success" for u in self.up[k]):
                self.status[k] = "skipped"
            elif self.action[k] == "ok" or self.action[k].startswith("slow"):
                self.status[k] = "success"
            elif self.action[k].startswith("hang"):
                self.status[k] = "timeout"
            else:
                self.status[k] = "failure"

    def topo(self, keys):
        done, out = set(), []
        todo = list(keys)
        while todo:
            ready = [k for k in todo if self.up[k] <= done]
            if not ready:
                raise ValueError("cycle")
            out += ready
            done |= set(ready)
            todo = [k for k in todo if k not in done]
        return out


def make_fixup(case, s):
    """Returns (fixup object, extra edges as keys, cycle expected)."""
    from lsst.pipe.base.exec_fixup_data_id import ExecFixupDataId
    from lsst.pipe.base.execution_graph_fixup import ExecutionGraphFixup

    f = case["fixup"]
    keys = sorted(s.quanta, key=str)
    x = Expected(s, case)
    order = x.topo(keys)
    edges = set()
    if f["kind"] == "dataid":
        tasks = [t for t in s.spec["tasks"]]
        t = tasks[f["task"] % len(tasks)]
        dims = (f["dims"],) if isinstance(f["dims"], str) else tuple(f["dims"])
        if not set(dims) <= set(synth.DIMS[t["dk"]]):
            return None, set(), False
        names = synth.DIMS[t["dk"]]
        groups = {}
        for k, q in s.quanta.items():
            if k[0] == t["label"]:
                groups.setdefault(tuple(dict(zip(names, k[1]))[dim] for dim in dims), []).append(k)
        if not groups and case["legacy"]:
            # the old form does not know about tasks without quanta
            return None, set(), False
        ks = sorted(groups, reverse=f["reverse"])
        for a, b in zip(ks, ks[1:]):
            edges |= {(p, q) for p in groups[a] for q in groups[b]}
        return ExecFixupDataId(t["label"], f["dims"], reverse=f["reverse"]), edges, False
    if f["kind"] in ("edges", "legacy") and len(order) > 1:
        for i, j in f["pairs"]:
            i, j = sorted((i % len(order), j % len(order)))
            if i != j:
                edges.add((order[i], order[j]))
        ids = [(s.quanta[a]["id"], s.quanta[b]["id"]) for a, b in edges]

        class Edges(ExecutionGraphFixup):
            if f["kind"] == "edges":
                def fixup_graph(self, xgraph, quanta_by_task):
                    xgraph.add_edges_from(ids)
            else:
                def fixupQuanta(self, graph):
                    graph.graph.add_edges_from([(graph.getQuantumNodeByNodeId(a), graph.getQuantumNodeByNodeId(b)) for a, b in ids])
                    return graph

        return Edges(), edges, False
    if f["kind"] == "cycle" and len(order) > 1:
        a, b = s.quanta[order[0]]["id"], s.quanta[order[-1]]["id"]

        class Cycle(ExecutionGraphFixup):
            def fixup_graph(self, xgraph, quanta_by_task):
                xgraph.add_edges_from([(a, b), (b, a)])

        return Cycle(), set(), True
    return None, set(), False


def check_summary(report, s):
    got = report.qgraphSummary.qgraphTaskSummaries
    for t in s.spec["tasks"]:
        qs = [q for k, q in s.quanta.items() if k[0] == t["label"]]
        if not qs:
            continue
        summ = got[t["label"]]
        expect_eq(summ.numQuanta, len(qs), "quanta of a task in the summary")
        n_in, n_out = {}, {}
        for q in qs:
            for side, n in (("in", n_in), ("out", n_out)):
                for ks in q[side].values():
                    for name, _ in ks:
                        n[name] = n.get(name, 0) + 1
        expect_eq({k: v for k, v in summ.numInputs.items() if v}, n_in, "inputs in the summary")
        expect_eq({k: v for k, v in summ.numOutputs.items() if v}, n_out, "outputs in the summary")


def check_report(report, s, want, complete, names_all=True):
    """``want``: {key: status}; when not complete, only listed keys may (but need not) be missing."""
    from lsst.pipe.base.quantum_reports import Report

    expect_eq(Report.model_validate_json(report.model_dump_json()).model_dump(), report.model_dump(), "report through JSON")
    seen = {}
    for r in report.quantaReports:
        expect(r.quantumId is not None, f"report without a quantum ID: {r}")
        k = s.by_id[r.quantumId]
        expect(k not in seen, f"quantum {k} reported twice")
        seen[k] = r
        expect_eq(r.taskLabel, k[0], "task label in the report")
        expect_eq(r.dataId, dict(zip(synth.DIMS[s.quanta[k]["dk"]], k[1])), "data ID in the report")
    for k, r in seen.items():
        expect(k in want, f"quantum {k} reported as {r.status.value} but it should not appear")
        expect_eq(r.status.value, want[k], f"status of {k}")
    if complete:
        expect_eq(sorted(map(str, seen)), sorted(map(str, want)), "quanta in the report")
    return seen


def check(case):
    from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError
    from mpexec import ScriptedExecutor

    s = synth.Synth(case["graph"])
    fixup, extra, cycle = make_fixup(case, s)
    x = Expected(s, case, extra)
    qg = s.components.assemble()
    ex = ScriptedExecutor({str(s.quanta[k]["id"]): a for k, a in x.action.items()})
    mp = MPGraphExecutor(num_proc=1, timeout=1e6, quantum_executor=ex, fail_fast=case["fail_fast"], execution_graph_fixup=fixup)
    graph = qg.to_old_quantum_graph() if case["legacy"] else qg
    failure = None
    try:
        mp.execute(graph)
    except (MPGraphExecutorError, SystemExit) as exc:
        failure = exc
    started = [s.by_id[uuid.UUID(q)] for w, q, _ in ex.events if w == "S"]
    if cycle:
        expect(failure is not None and not started, "a cyclic execution graph was executed")
        return {"nontrivial": True, "labels": ["cycle"]}
    ended, seen = set(), set()
    for w, q, _ in ex.events:
        k = s.by_id[uuid.UUID(q)]
        if w == "S":
            expect(k not in seen, f"{k} executed twice")
            expect(x.up[k] <= ended, f"{k} executed before its upstream quanta succeeded")
            seen.add(k)
        elif w == "E":
            ended.add(k)
    failures = [k for k in started if x.status[k] == "failure"]
    runnable = {k for k, v in x.status.items() if v in ("success", "failure")}
    expect(seen <= runnable, "a quantum downstream of a failure was executed")
    fatal = any(x.action[k] == "invalid" for k in failures)
    if case["fail_fast"] or fatal:
        stop = started[-1] if started else None
        stopping = [k for k in failures if case["fail_fast"] or x.action[k] == "invalid"]
        if stopping:
            expect_eq(stop, stopping[0], "execution went on after the failure that should have stopped it")
            expect(failure is not None, "no error raised")
            codes = {"invalid": 21, "repeatable": 20 if case["fail_fast"] else None}
            want_code = codes.get(x.action[stop])
            if want_code is not None:
                expect(isinstance(failure, SystemExit) and failure.code == want_code, f"wrong exit for {x.action[stop]}: {failure!r}")
            else:
                expect(isinstance(failure, MPGraphExecutorError), f"wrong error {failure!r}")
            want = {k: x.status[k] for k in seen}
            # quanta blocked by failures before the fatal one
            blocked = {k for k, v in x.status.items() if v == "skipped"}
            rep = check_report(mp.getReport(), s, {**want, **{k: "skipped" for k in blocked}}, False)
            expect(set(want) <= set(rep), "an executed quantum is not in the report")
            expect_eq(mp.getReport().status.value, "failure", "status of the report")
            check_summary(mp.getReport(), s)
            return {"nontrivial": bool(x.edges), "labels": ["stopped", case["fixup"]["kind"]]}
    expect_eq(sorted(map(str, seen)), sorted(map(str, runnable)), "executed quanta")
    expect_eq(failure is not None, bool(failures), "an error is raised iff something failed")
    if failure is not None:
        expect(isinstance(failure, MPGraphExecutorError), f"wrong error {failure!r}")
    rep = check_report(mp.getReport(), s, x.status, True)
    for k in failures:
        info = rep[k].exceptionInfo
        name = {"fail": "mpexec.VpFailure", "bigfail": "mpexec.VpFailure", "repeatable": "RepeatableQuantumError"}[x.action[k]]
        expect(info is not None and info.className.endswith(name) and str(s.quanta[k]["id"]) in info.message, f"exception of {k}: {str(info)[:200]}")
    expect_eq(mp.getReport().status.value, "failure" if failures else "success", "status of the report")
    check_summary(mp.getReport(), s)
    return {"nontrivial": bool(failures and x.edges), "labels": ["legacy" if case["legacy"] else "new", case["fixup"]["kind"]]}


TIMEOUT = 6.0


def mp_setup():
    import multiprocessing

    qgs.template()
    multiprocessing.set_forkserver_preload(["lsst.pipe.base", "lsst.pipe.base.mp_graph_executor", "mpexec", "vptasks"])


def mp_check(case):
    import multiprocessing

    from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError, MPTimeoutError
    from lsst.pipe.base import InvalidQuantumError, RepeatableQuantumError
    from mpexec import ScriptedExecutor

    s = synth.Synth(case["graph"])
    if len(s.quanta) > 14:
        return {"nontrivial": False, "labels": ["too large"]}
    x = Expected(s, case)
    with core.scratch_dir() as d:
        path = os.path.join(d, "events")
        stoppers = [k for k in x.status if x.status[k] in ("failure", "timeout") and (case["fail_fast"] or x.action[k] == "invalid")]
        ex = ScriptedExecutor({str(s.quanta[k]["id"]): a for k, a in x.action.items()}, path, [str(s.quanta[k]["id"]) for k in stoppers])
        # The limit is far above what any job without a scripted hang takes.
        limit = TIMEOUT if case["hang"] else 240.0
        mp = MPGraphExecutor(num_proc=case["procs"], timeout=limit, quantum_executor=ex, fail_fast=case["fail_fast"], start_method="forkserver")
        failure = None
        try:
            mp.execute(s.components.assemble())
        except (MPGraphExecutorError, SystemExit) as exc:
            failure = exc
        events = []
        if os.path.exists(path):
            for line in open(path):
                w, q, t = line.split()
                events.append((float(t), w, s.by_id[uuid.UUID(q)]))
        children = multiprocessing.active_children()
        for c in children:
            c.join(5)
        alive = [c.name for c in multiprocessing.active_children()]
        for c in multiprocessing.active_children():
            c.kill()
        report = mp.getReport()
    events.sort()
    start, end, failed_at = {}, {}, {}
    for t, w, k in events:
        if w == "S":
            expect(k not in start, f"{k} executed twice")
            start[k] = t
        elif w == "E":
            end[k] = t
        else:
            failed_at[k] = t
    timeouts = {s.by_id[r.quantumId] for r in report.quantaReports if r.status.value == "timeout" and r.quantumId in s.by_id}
    for k in timeouts:
        if not x.action[k].startswith("hang"):
            expect(not (k in end and end[k] - start[k] < limit / 3), f"{k} finished in time but is reported as timed out")
            return {"nontrivial": False, "labels": ["machine too slow"]}
    for k in start:
        expect(all(u in end and end[u] <= start[k] for u in x.up[k]), f"{k} executed before its upstream quanta succeeded")
        expect(x.status[k] != "skipped", f"{k} executed though something upstream failed")
    # never more than the requested number of processes at a time (ends are logged before the process exits)
    marks = []
    for k, t in start.items():
        stop = end.get(k, failed_at.get(k))
        if stop is not None:
            marks += [(t, 1), (stop, -1)]
    running = most = 0
    for _, m in sorted(marks):
        running += m
        most = max(most, running)
    expect(most <= case["procs"], f"{most} quanta ran at once with {case['procs']} processes")
    expect(not alive, f"worker processes left running: {alive}")
    if stoppers:
        expect(failure is not None, "no error raised")
        seen = {}
        for r in report.quantaReports:
            k = s.by_id[r.quantumId]
            expect(k not in seen, f"{k} reported twice")
            seen[k] = r.status.value
            if r.status.value == "success":
                expect(k in end, f"{k} reported successful but did not finish")
            if x.status[k] == "skipped":
                expect_eq(r.status.value, "skipped", f"status of {k}")
            elif x.status[k] == "failure":
                expect_eq(r.status.value, "failure", f"status of {k}")
                code = {"invalid": InvalidQuantumError.EXIT_CODE, "repeatable": RepeatableQuantumError.EXIT_CODE if case["fail_fast"] else None}
                if code.get(x.action[k]) is not None and (r.exitCode or 0) >= 0:
                    expect_eq(r.exitCode, code[x.action[k]], f"exit code of {k}")
        expect(any(seen.get(k) in ("failure", "timeout") for k in stoppers), "the failure is not in the report")
        expect(report.status.value in ("failure", "timeout"), "status of the report")
        first = min([failed_at[k] for k in stoppers if k in failed_at], default=None)
        if first is not None:
            late = [k for k, t in start.items() if t > first]
            expect(len(late) <= case["procs"], f"{len(late)} quanta were launched after the failure that should have stopped execution")
        return {"nontrivial": bool(x.edges), "labels": ["stopped"]}
    runnable = {k for k, v in x.status.items() if v != "skipped"}
    expect_eq(sorted(map(str, start)), sorted(map(str, runnable)), "executed quanta")
    bad = {k for k, v in x.status.items() if v in ("failure", "timeout")}
    expect_eq(failure is not None, bool(bad), "an error is raised iff something failed")
    if failure is not None:
        expect(isinstance(failure, MPGraphExecutorError), f"wrong error {failure!r}")
        if not timeouts:
            expect(not isinstance(failure, MPTimeoutError), "a timeout is raised but nothing timed out")
    rep = check_report(report, s, x.status, True)
    kinds = {x.status[k] for k in bad}
    expect_eq(report.status.value, "failure" if "failure" in kinds else "timeout" if kinds else "success", "status of the report")
    for k, r in rep.items():
        a = x.action[k]
        if x.status[k] == "failure":
            if a in ("fail", "bigfail", "repeatable"):
                expect(r.exceptionInfo is not None and str(s.quanta[k]["id"]) in r.exceptionInfo.message, f"exception of {k} ({a})")
                expect(r.exitCode not in (None, 0), f"exit code of {k}: {r.exitCode}")
            else:
                expect_eq(r.exitCode, {"exit3": 3, "kill": -9}[a], f"exit code of {k}")
        elif x.status[k] == "success":
            expect_eq(r.exitCode, 0, f"exit code of {k}")
    check_summary(report, s)
    return {"nontrivial": bool(bad and x.edges), "labels": sorted(kinds) or ["success"]}


FACETS = [Facet("in-process", cases, check, quick=1500, thorough=40000, setup=qgs.template),
          Facet("workers", mp_cases, mp_check, quick=150, thorough=3000, setup=mp_setup)]
