"""C26: restarting a workflow converges to the state of one uninterrupted run."""
from __future__ import annotations

import json
import os
import shutil

import hypothesis.strategies as st
from lsst.daf.butler import Butler, CollectionType
from lsst.pipe.base import Pipeline
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError
from lsst.pipe.base.quantum_graph_builder import QuantumGraphBuilderError
from lsst.pipe.base.separable_pipeline_executor import SeparablePipelineExecutor
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor

import core
import qgs
import synth
import vptasks
import wf
from core import HarnessError, expect, expect_eq

PROPERTY = "C26"
RULE = "at least one attempt failed or crashed after some quantum had succeeded or left outputs, and the workflow was restarted to completion"

FAIL = [{"do": "fail-early"}, {"do": "fail-late"}, {"do": "fail-partial", "mask": 1}, {"do": "fail-partial", "mask": 2},
        {"do": "fail-repeatable"}, {"do": "fail-algorithm"}]
STEADY = [{"do": "missing", "mask": 1}, {"do": "missing", "mask": 0}, {"do": "nowork-early"}, {"do": "nowork-partial", "mask": 1}]


@st.composite
def cases(draw):
    spec = draw(qgs.pipeline_specs(max_tasks=4, scalar_errors=False, prereq=draw(st.integers(0, 3)) == 0, worlds=("obs", "obs", "sky"),
                                   max_inputs=2))
    loose = draw(st.booleans())
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] == "in" and loose:
                c["minimum"] = 0
                c["multiple"] = True
    exist = {}
    made = {c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("out", "init_out")}
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq", "init_in") and c["name"] not in made:
                exist[c["name"]] = {"in1": 0xFFFF if draw(st.integers(0, 2)) else draw(qgs.MASKS)}
    n = draw(st.integers(1, 4))
    attempts = []
    for j in range(n + 1):
        attempts.append({
            "style": draw(st.sampled_from(["extend", "extend", "new", "new", "rerun", "redo"])) if j < n else
            draw(st.sampled_from(["extend", "new", "rerun"])),
            "fail": [] if j == n else draw(st.lists(st.one_of(st.just(0), st.just(0), st.integers(0, len(FAIL))), min_size=1, max_size=9)),
            "shift": draw(st.integers(0, 5)),
            "crash": draw(st.integers(1, 30)) if j < n and draw(st.integers(0, 3)) == 0 else 0,
            "crash_after": draw(st.booleans()),
            "via": draw(st.sampled_from(["builder", "separable", "separable-old"])),
            "fail_fast": draw(st.integers(0, 4)) == 0,
            "records": draw(st.booleans()),
            "chain_skip": draw(st.booleans()),
        })
    return {"spec": spec, "exist": exist, "attempts": attempts, "where": draw(st.sampled_from(("",) + qgs.WHERES[spec["world"]])),
            "steady": draw(st.lists(st.one_of(st.just(0), st.just(0), st.just(0), st.integers(0, len(STEADY))), min_size=1, max_size=7)) if loose else [0]}


class Stop(BaseException):
    pass


class Work:
    """One repository and the runs made in it."""

    def __init__(self, root, spec, where, events):
        self.root, self.spec, self.where = root, spec, where
        self.runs = []
        self.graph = None
        self.pre = None
        self.events_path = events

    def pipeline(self):
        p = Pipeline("restarted")
        for t in self.spec["tasks"]:
            p.addTask("vptasks.RunTask", t["label"])
            p.addConfigOverride(t["label"], "spec", json.dumps({k: v for k, v in t.items() if k != "label"}))
            p.addConfigOverride(t["label"], "value", 0)
        return p

    def inputs(self, run):
        return [r for r in reversed(self.runs) if r != run] + ["in1"]

    def make(self, a, style):
        """Build (or reuse) the graph of an attempt; returns (run, options)."""
        if not self.runs or style == "new":
            run = f"u/r{len(self.runs)}"
        else:
            run = self.runs[-1]
        if style == "redo":
            skip, clobber = [], True
        elif style == "new":
            skip, clobber = list(reversed(self.runs)), False
        else:
            skip, clobber = [run, *[r for r in reversed(self.runs) if r != run]], True
        if run not in self.runs:
            self.runs.append(run)
        return run, skip, clobber

    def attempt(self, a, style, behavior):
        """Build and execute; returns (failed, started quantum keys, number of quanta)."""
        vptasks.BEHAVIOR.clear()
        vptasks.BEHAVIOR.update(behavior)
        vptasks.EVENTS.clear()
        if os.path.exists(self.events_path):
            os.remove(self.events_path)
        first = not self.runs
        previous = list(self.runs)
        run, skip, clobber = self.make(a, style)
        inputs = [r for r in reversed(previous) if r != run] + ["in1"]
        if skip and a["chain_skip"] and not first:
            b = Butler.from_config(self.root, writeable=True)
            b.collections.register("u/skip", CollectionType.CHAINED)
            b.collections.redefine_chain("u/skip", [r for r in skip if r in previous])
            skip = ["u/skip"] + ([run] if run not in previous else [])
            wf.close(b)
        skip = [s for s in skip if s == "u/skip" or s in previous]
        butler = Butler.from_config(self.root, collections=inputs, run=run, writeable=True)
        crashed = False
        err = None
        try:
            sep = SeparablePipelineExecutor(butler, clobber_output=clobber, skip_existing_in=skip or None)
            if style == "rerun" and self.graph is not None:
                qg = self.graph
            elif a["via"] == "builder":
                qg = AllDimensionsQuantumGraphBuilder(self.pipeline().to_graph(), butler, where=self.where, input_collections=inputs, output_run=run,
                                                      skip_existing_in=skip, clobber=clobber).finish(attach_datastore_records=a["records"]).assemble()
            elif a["via"] == "separable":
                qg = sep.build_quantum_graph(self.pipeline(), self.where, attach_datastore_records=a["records"])
            else:
                qg = sep.make_quantum_graph(self.pipeline(), self.where, attach_datastore_records=a["records"])
            self.graph = qg
            if not len(qg):
                return False, set(), 0, False
            if a["via"] == "builder" and hasattr(qg, "init_output_run"):
                qg.pipeline_graph.register_dataset_types(butler)
                qg.init_output_run(butler)
            else:
                sep.pre_execute_qgraph(qg, register_dataset_types=True)

            def go():
                if a["via"] == "builder":
                    sq = SingleQuantumExecutor(butler=butler, skip_existing=bool(skip), clobber_outputs=clobber)
                    MPGraphExecutor(num_proc=1, timeout=1000.0, quantum_executor=sq, fail_fast=a["fail_fast"]).execute(qg)
                else:
                    sep.run_pipeline(qg, fail_fast=a["fail_fast"])

            if a["crash"]:
                crashed = self.forked(go, butler, a)
            else:
                try:
                    go()
                except (MPGraphExecutorError, SystemExit) as e:
                    err = e
        finally:
            wf.close(butler)
        started = set()
        if os.path.exists(self.events_path):
            with open(self.events_path) as f:
                for line in f:
                    e = json.loads(line)
                    if e["event"] == "start":
                        expect(e["key"] not in started, f"{e['key']} was executed twice in one attempt")
                        started.add(e["key"])
        return err is not None, started, len(qg), crashed

    def forked(self, go, butler, a):
        """Run in a child process that dies at a certain put; returns whether it died there."""
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                count = 0
                cls = type(butler)
                put = cls.put

                def dying_put(self, *args, **kw):
                    nonlocal count
                    count += 1
                    if count == a["crash"] and not a["crash_after"]:
                        os._exit(9)
                    result = put(self, *args, **kw)
                    if count == a["crash"]:
                        os._exit(9)
                    return result

                cls.put = dying_put
                try:
                    go()
                    code = 0
                except (MPGraphExecutorError, SystemExit):
                    code = 1
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        if code not in (0, 1, 9):
            raise HarnessError(f"the process to crash ended with {code}")
        return code != 0

    def contents(self):
        """What is found through the output runs, newest first."""
        b = Butler.from_config(self.root, collections=list(reversed(self.runs)))
        try:
            out = {}
            runs = set(self.runs)
            for dt in sorted(b.registry.queryDatasetTypes("*"), key=lambda d: d.name):
                for ref in b.query_datasets(dt, collections=list(reversed(self.runs)), find_first=True, explain=False, limit=None):
                    if ref.run in runs:
                        out[dt.name, ref.dataId.required_values] = wf.observed(b.get(ref))
            return out
        finally:
            wf.close(b)

    def successes(self):
        """Keys of quanta with metadata in any run."""
        b = Butler.from_config(self.root)
        try:
            out = set()
            for t in self.spec["tasks"]:
                try:
                    refs = b.query_datasets(t["label"] + "_metadata", collections=list(self.runs), find_first=False, explain=False, limit=None)
                except Exception as e:  # noqa: BLE001
                    if type(e).__name__ in ("MissingDatasetTypeError", "MissingCollectionError"):
                        continue
                    raise
                out.update(vptasks.quantum_key(t["label"], r.dataId) for r in refs)
            return out
        finally:
            wf.close(b)


PLAIN = {"crash": 0, "via": "builder", "fail_fast": False, "records": False, "chain_skip": False}


def check(case):
    spec = case["spec"]
    wf.fake_packages()
    with core.scratch_dir() as d:
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"], put=True)
        repo.close()
        twin = os.path.join(d, "twin")
        shutil.copytree(repo.root, twin)
        old = os.environ.get("VP_EVENTS")
        os.environ["VP_EVENTS"] = os.path.join(d, "events")
        try:
            ref = Work(twin, spec, case["where"], os.environ["VP_EVENTS"])
            # steady behaviour depends on the quantum only; find the quanta with a plain dry build
            try:
                b = Butler.from_config(twin, collections=["in1"], run="u/r0", writeable=True)
                qg = AllDimensionsQuantumGraphBuilder(ref.pipeline().to_graph(), b, where=case["where"], input_collections=["in1"],
                                                      output_run="u/r0").finish(attach_datastore_records=False).assemble()
            except (QuantumGraphBuilderError, Exception) as e:  # noqa: BLE001
                if type(e).__module__.startswith("lsst.") or isinstance(e, (FileNotFoundError, LookupError)):
                    return False  # not buildable: judged elsewhere
                raise
            finally:
                wf.close(b)
            keys = sorted(vptasks.quantum_key(qg.quantum_only_xgraph.nodes[i]["task_label"], qg.quantum_only_xgraph.nodes[i]["data_id"]) for i in qg)
            if not keys or len(keys) > 60:
                return False
            steady = {}
            for i, k in enumerate(keys):
                s = case["steady"][i % len(case["steady"])]
                if s:
                    steady[k] = STEADY[s - 1]
            failed, started, n, _ = ref.attempt(PLAIN, "new", steady)
            expect(not failed, "an uninterrupted run without failures failed")
            want = ref.contents()
            w = Work(repo.root, spec, case["where"], os.environ["VP_EVENTS"])
            interesting = False
            crashes = 0
            for j, a in enumerate(case["attempts"]):
                style = "new" if j == 0 else a["style"]
                behavior = dict(steady)
                bad = set()
                for i, k in enumerate(keys):
                    x = a["fail"][(i + a["shift"]) % len(a["fail"])] if a["fail"] else 0
                    if x and k not in steady:
                        behavior[k] = FAIL[x - 1]
                        bad.add(k)
                done = w.successes() if w.runs else set()
                failed, started, n, crashed = w.attempt(a, style, behavior)
                crashes += crashed
                if style != "redo":
                    expect(not (started & done), f"attempt {j} ({style}) repeated {sorted(started & done)}")
                if not crashed:
                    expect_eq(failed, bool(started & bad), f"failure of attempt {j} ({style}); executed {sorted(started)}")
                    if not failed and style != "redo":
                        expect_eq(w.successes(), ref.successes(), f"quanta that succeeded after attempt {j} without failures")
                if (failed or crashed) and w.successes():
                    interesting = True
            got = w.contents()
            want = forgive_logs(got, want, crashes)
            expect_eq(sorted(map(str, got)), sorted(map(str, want)), "datasets after restarts, against one uninterrupted run")
            for k in sorted(want, key=str):
                expect_eq(got[k], want[k], f"content of {k} after restarts, against one uninterrupted run")
            return interesting
        finally:
            if old is None:
                os.environ.pop("VP_EVENTS", None)
            else:
                os.environ["VP_EVENTS"] = old


# ------------------------------------------------------------------------------------------------ one graph, executed again


@st.composite
def rerun_cases(draw):
    spec = draw(synth.graph_specs(max_tasks=4, max_det=2))
    n = draw(st.integers(1, 4))
    return {"spec": spec, "mode": draw(st.sampled_from(["full", "qbb", "qbb"])),
            "attempts": [{"fail": draw(st.lists(st.one_of(st.just(0), st.just(0), st.integers(0, len(FAIL))), min_size=1, max_size=9)),
                          "shift": draw(st.integers(0, 5)), "crash": draw(st.integers(1, 25)) if draw(st.integers(0, 2)) == 0 else 0,
                          "after": draw(st.booleans()), "skip": draw(st.integers(0, 4)) > 0, "fail_fast": draw(st.integers(0, 4)) == 0}
                         for _ in range(n)],
            "steady": draw(st.lists(st.one_of(st.just(0), st.just(0), st.just(0), st.integers(0, len(STEADY))), min_size=1, max_size=7)),
            "last_skip": draw(st.integers(0, 4)) > 0}


def check_rerun(case):
    with core.scratch_dir() as d:
        f = wf.Flow(d, case["spec"], mode=case["mode"])
        old = os.environ.get("VP_EVENTS")
        os.environ["VP_EVENTS"] = path = os.path.join(d, "events")
        try:
            f.prepare()
            keys = sorted(f.s.quanta)
            if not keys:
                return False
            steady = {k: STEADY[case["steady"][i % len(case["steady"])] - 1] for i, k in enumerate(keys) if case["steady"][i % len(case["steady"])]}
            md_of = {k: f.s.quanta[k]["out"]["_metadata"][0] for k in keys}
            mds = set(md_of.values())
            interesting = False
            crashes = 0
            for j, a in enumerate([*case["attempts"], {"fail": [], "shift": 0, "crash": 0, "after": False, "skip": case["last_skip"], "fail_fast": False}]):
                behavior = dict(steady)
                bad = set()
                for i, k in enumerate(keys):
                    x = a["fail"][(i + a["shift"]) % len(a["fail"])] if a["fail"] else 0
                    if x and k not in steady:
                        behavior[k] = FAIL[x - 1]
                        bad.add(f.qkey(k))
                done = {f.qkey(k) for k in keys if md_of[k] in f.observe(mds)}
                if os.path.exists(path):
                    os.remove(path)

                def go():
                    try:
                        return f.execute(behavior, fail_fast=a["fail_fast"], skip_existing=a["skip"], clobber_outputs=True)
                    except SystemExit as e:  # some failures end the process when failing fast
                        return e

                crashed = False
                err = None
                if a["crash"]:
                    code = in_child(f, go, a)
                    crashed = code == 9
                    crashes += crashed
                    failed = code == 1
                else:
                    err = go()
                    failed = err is not None
                started = set()
                if os.path.exists(path):
                    with open(path) as s:
                        started = {e["key"] for e in map(json.loads, s) if e["event"] == "start"}
                if a["skip"]:
                    expect(not (started & done), f"attempt {j} repeated {sorted(started & done)}")
                if not crashed:
                    expect_eq(failed, bool(started & bad), f"failure of attempt {j}: {err!r}; executed {sorted(started)}")
                now = {f.qkey(k) for k in keys if md_of[k] in f.observe(mds)}
                expect(done <= now or not a["skip"], f"attempt {j} lost the success of {sorted(done - now)}")
                if (crashed or failed) and now:
                    interesting = True
            f.simulate(steady)
            got = f.observe()
            names = {c["name"] for t in f.spec["tasks"] for c in t["conns"]} | {t["label"] + x for t in f.spec["tasks"] for x in ("_metadata", "_log")}
            expect_eq({k: v for k, v in got.items() if k[0] in names},
                      forgive_logs(got, {k: v for k, v in f.model.items() if k[0] in names}, crashes),
                      "datasets after executing the graph again")
            return interesting
        finally:
            f.close()
            if old is None:
                os.environ.pop("VP_EVENTS", None)
            else:
                os.environ["VP_EVENTS"] = old


def forgive_logs(got, want, crashes):
    """A process that dies between writing the metadata and the log of a quantum leaves a success without a log."""
    lost = [k for k in want if k not in got and k[0].endswith("_log")]
    return {k: v for k, v in want.items() if k not in lost} if len(lost) <= crashes else want


def in_child(f, go, a):
    from lsst.daf.butler import QuantumBackedButler
    from lsst.daf.butler.direct_butler import DirectButler

    f.close()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            cls = DirectButler if f.mode == "full" else QuantumBackedButler
            put = cls.put
            count = 0

            def dying_put(self, *args, **kw):
                nonlocal count
                count += 1
                if count == a["crash"] and not a["after"]:
                    os._exit(9)
                result = put(self, *args, **kw)
                if count == a["crash"]:
                    os._exit(9)
                return result

            cls.put = dying_put
            code = 1 if go() is not None else 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 1, 9):
        raise HarnessError(f"the process to crash ended with {code}")
    return code


FACETS = [core.Facet("restart", cases, check, quick=160, thorough=3000, setup=qgs.template),
          core.Facet("rerun", rerun_cases, check_rerun, quick=160, thorough=3000, setup=wf.template)]
