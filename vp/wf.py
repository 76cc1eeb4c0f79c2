"""Whole generated graphs executed against a real repository: harness and reference model."""
from __future__ import annotations

import functools
import logging
import os
import shutil
import tempfile

import hypothesis.strategies as st
from lsst.daf.butler import Butler, CollectionType, DatasetRef, DatasetType, QuantumBackedButler
from lsst.pipe.base import QuantumSuccessCaveats as C
from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph  # noqa: F401
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor

import core
import qgs
import synth
import vptasks
from core import expect, expect_eq
from execs import FAILURES, FLAGS, simple

_TEMPLATE = {}

PACKAGES = {"pipe_base": "1", "python": "3"}
"""What `Packages.fromSystem` reports (inspecting the real system takes longer than everything else)."""


def fake_packages():
    from lsst.utils.packages import Packages

    Packages.fromSystem = classmethod(lambda cls, include_all=False: cls(dict(PACKAGES)))


def template():
    """A repository with the dimension records of `synth` and an empty run ``in1``."""
    key = os.getpid()
    path = _TEMPLATE.get(key)
    if path is None or not os.path.isdir(path):
        path = tempfile.mkdtemp(prefix="wftemplate-", dir=core.scratch_root())
        Butler.makeRepo(path)
        butler = Butler.from_config(path, writeable=True)
        size = {"ni": 2, "nd": 16, "nf": 3}
        recs = {}
        for dk in ("d", "f"):
            for v in synth.values(dk, size):
                d = synth.data_id(dk, v)
                for el in ("instrument", "band", "detector", "physical_filter"):
                    if el in d.dimensions.elements:
                        recs.setdefault(el, {})[d.records[el]] = None
        for el in ("instrument", "band", "detector", "physical_filter"):
            if el != "band":
                butler.registry.insertDimensionData(el, *recs[el])
        for r in ("in1", "in2"):
            butler.collections.register(r, CollectionType.RUN)
        close(butler)
        _TEMPLATE.clear()
        _TEMPLATE[key] = path
    return path


def close(butler):
    f = getattr(butler, "close", None)
    if f is not None:
        f()


def input_content(k):
    return {"input": k[0], "values": [str(x) for x in k[1]]}


class Flow:
    """A repository, a graph, and a model of what is stored.

    ``mode`` is "full" (direct butler) or "qbb" (quantum-backed butlers).  Dataset keys are ``(name, values)``.
    """

    def __init__(self, d, spec, *, mode="full", value=0, salt="", repo=None, task_class="vptasks.RunTask", inputs=True):
        self.dir, self.spec, self.mode, self.value = d, spec, mode, value
        vptasks.BEHAVIOR.clear()
        vptasks.EVENTS.clear()
        fake_packages()
        if repo is None:
            self.root = os.path.join(d, "repo")
            shutil.copytree(template(), self.root)
        else:
            self.root = repo
        self.s = synth.Synth(spec, task_class=task_class, value=value, salt=salt)
        self.run = self.s.run
        self.tasks = {t["label"]: t for t in spec["tasks"]}
        logging.getLogger("vptasks").setLevel(logging.INFO)
        self.model = {}
        """dataset key -> content (as by `simple`), for stored datasets"""
        self.status = {}
        """quantum key -> "success" or "failed" of the last attempt"""
        self.caveats = {}
        butler = Butler.from_config(self.root, writeable=True)
        self.universe = butler.dimensions
        self.graph = self.s.graph
        self.types = {n.name: n.dataset_type for n in self.graph.dataset_types.values()}
        self.types["packages"] = self.graph.packages_dataset_type
        self.overall = sorted(k for k, v in self.s.datasets.items() if v["producer"] is None)
        if inputs:
            for name in sorted({k[0] for k in self.overall}):
                butler.registry.registerDatasetType(self.types[name])
            for k in self.overall:
                butler.put(input_content(k), self.ref(k))
        self.model.update({k: input_content(k) for k in self.overall})
        self.attach(butler)
        if mode == "full":
            butler.registry.registerRun(self.run)
        close(butler)
        self.qg = self.s.components.assemble()
        self.full = None

    def attach(self, butler):
        """Attach datastore records of the overall inputs to the quanta, as the builder does."""
        every = {self.s.datasets[k]["id"]: self.ref(k) for k in self.overall}
        for m in [*self.s.components.quantum_datasets.values(), *self.s.components.init_quanta.root]:
            refs = [every[x.dataset_id] for xs in m.inputs.values() for x in xs if x.dataset_id in every]
            m.datastore_records = {n: r.to_simple() for n, r in butler._datastore.export_records(refs).items()} if refs else {}

    def ref(self, k):
        ds = self.s.datasets[k]
        return DatasetRef(self.types[k[0]], synth.data_id(ds["dk"], k[1]), run=ds["run"], id=ds["id"])

    def butler(self):
        if self.full is None:
            self.full = Butler.from_config(self.root, run=self.run, writeable=True)
        return self.full

    def qbb(self, quantum):
        return QuantumBackedButler.initialize(self.root, quantum, self.universe, dataset_types=self.types)

    def prepare(self):
        """Register dataset types and write the init-outputs."""
        if self.mode == "full":
            self.graph.register_dataset_types(self.butler())
            self.qg.init_output_run(self.butler())
        else:
            b = self.qg.make_init_qbb(self.root)
            self.qg.init_output_run(b)
            close(b)
        for label, i in self.s.init.items():
            for conn, k in i["out"].items():
                if conn not in ("_config", "packages"):
                    self.model[k] = self.init_content(label, conn)

    def init_content(self, label, conn):
        i = self.s.init[label]
        seen = {}
        for c, k in i["in"].items():
            p = self.s.datasets[k]["producer"]
            if p is None:
                seen[c] = input_content(k)
            else:
                (src,) = [oc for oc, ok in self.s.init[p[0]]["out"].items() if ok == k]
                seen[c] = self.init_content(p[0], src)
        return {"made_by": label, "conn": conn, "value": self.value, "from": seen}

    def executor(self, **kw):
        if self.mode == "full":
            return SingleQuantumExecutor(butler=self.butler(), **kw)
        return SingleQuantumExecutor(butler=None, limited_butler_factory=self.qbb, **kw)

    def qkey(self, key):
        return "|".join([key[0], *map(str, key[1])])

    def execute(self, actions, *, provenance=None, fail_fast=False, keep=None, raise_partial=True, graph=None, **kw):
        """Run the graph in this process; actions are by quantum key.  Returns the exception raised, if any."""
        vptasks.BEHAVIOR.clear()
        vptasks.EVENTS.clear()
        for key, action in actions.items():
            vptasks.BEHAVIOR[self.qkey(key)] = action
        ex = MPGraphExecutor(num_proc=1, timeout=1000.0, quantum_executor=self.executor(raise_on_partial_outputs=raise_partial, **kw),
                             fail_fast=fail_fast)
        err = None
        try:
            ex.execute(graph if graph is not None else self.qg, provenance_graph_file=provenance)
        except MPGraphExecutorError as e:
            err = e
        finally:
            self.report = ex.getReport()
        return err

    # ----------------------------------------------------------------------------------------- model

    def outputs_of(self, key):
        return [k for ks in self.s.quanta[key]["out"].values() for k in ks]

    def contents_of(self, key, action):
        """(regular outputs written, status, caveats or None) if the quantum runs on what is stored now."""
        q, t = self.s.quanta[key], self.tasks[key[0]]
        do = action["do"]
        digests = {}
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq"):
                got = []
                for k in q["in"][c["conn"]]:
                    if k in self.model:
                        m = self.model[k]
                        got.append(vptasks.digest({"metadata of": m["mark"]}) if isinstance(m, dict) and "mark" in m else vptasks.summarize(m))
                digests[c["conn"]] = sorted(got)
        init = {conn: vptasks.summarize(self.model.get(k)) for conn, k in self.s.init[key[0]]["in"].items()}
        names = sorted(c["conn"] for c in t["conns"] if c["kind"] == "out")
        wanted = names
        if do in ("fail-partial", "partial", "missing", "nowork-partial"):
            wanted = [n for i, n in enumerate(names) if (action.get("mask", 1) >> i) & 1]
        if do in ("fail-early", "nowork-early", "fail-late"):
            wanted = []
        out = {}
        for n in wanted:
            for k in q["out"][n]:
                out[k] = vptasks.make_output(key[0], self.value, n, k[1], digests, init)
        return out

    def simulate(self, actions, *, raise_partial=True, skip=False, todo=None):
        """Expected effect of one in-process run of the whole graph on a store without outputs of the quanta to run.

        Returns {quantum key: "success" | "failed" | "blocked" | "skipped"}.
        """
        result = {}
        for key in self.order():
            if todo is not None and key not in todo:
                continue
            if any(result.get(u) in ("failed", "blocked") for u in self.s.upstream(key)):
                result[key] = "blocked"
                continue
            (md,) = self.s.quanta[key]["out"]["_metadata"]
            (log,) = self.s.quanta[key]["out"]["_log"]
            if skip and md in self.model:
                result[key] = "skipped"
                continue
            action = actions.get(key, {"do": "ok"})
            do = action["do"]
            out = self.contents_of(key, action)
            for k in self.outputs_of(key):
                self.model.pop(k, None)
            self.model.update(out)
            failed = do in FAILURES or (do == "partial" and raise_partial)
            self.model[log] = {"log of": self.qkey(key)}
            if failed:
                result[key] = self.status[key] = "failed"
                self.caveats.pop(key, None)
                continue
            self.model[md] = {"mark": self.qkey(key)}
            flags = FLAGS.get(do, C.NO_CAVEATS)
            regular = [k for c, ks in self.s.quanta[key]["out"].items() if c not in ("_metadata", "_log") for k in ks]
            if not out:
                flags |= C.ALL_OUTPUTS_MISSING
            if set(out) != set(regular):
                flags |= C.ANY_OUTPUTS_MISSING
            self.caveats[key] = flags
            result[key] = self.status[key] = "success"
        return result

    def order(self):
        import networkx

        g = networkx.DiGraph()
        g.add_nodes_from(sorted(self.s.quanta))
        g.add_edges_from(sorted(self.s.edges))
        return list(networkx.topological_sort(g))

    # ----------------------------------------------------------------------------------------- observation

    def all_refs(self):
        return {k: self.ref(k) for k in self.s.datasets}

    def store(self):
        """A butler that sees everything the graph names."""
        if self.mode == "full":
            return self.butler()
        from lsst.daf.butler.datastore.record_data import DatastoreRecordData

        records = {}
        for m in [*self.s.components.quantum_datasets.values(), *self.s.components.init_quanta.root]:
            for name, r in m.datastore_records.items():
                records.setdefault(name, []).append(DatastoreRecordData.from_simple(r))
        records = {name: functools.reduce(lambda a, b: (a.update(b), a)[1], rs) for name, rs in records.items()}
        ids = {self.s.datasets[k]["id"] for k in self.overall}
        outs = {v["id"] for k, v in self.s.datasets.items() if v["producer"] is not None}
        return QuantumBackedButler.from_predicted(self.root, ids, outs, self.universe, datastore_records=records, dataset_types=self.types)

    def output_object(self, k, mark=0):
        """An object for an output dataset that was not made by running anything, and its comparable form."""
        from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords
        from lsst.pipe.base import TaskMetadata
        from lsst.utils.packages import Packages

        name = k[0]
        sc = self.types[name].storageClass_name
        if sc == "TaskMetadata":
            md = TaskMetadata()
            md["mark"] = f"{k} {mark}"
            return md
        if sc == "ButlerLogRecords":
            r = logging.LogRecord("x", logging.INFO, "f", 1, "running %s", (str(k).replace(" ", "") + str(mark),), None)
            return ButlerLogRecords.from_records([ButlerLogRecord.from_record(r)])
        if sc == "Config":
            return self.graph.tasks[name[: -len("_config")]].config
        if sc == "Packages":
            return Packages({"a": str(mark)})
        return {"output": name, "values": [str(x) for x in k[1]], "mark": mark}

    def observe(self, keys=None):
        """Stored content by dataset key."""
        b = self.store()
        try:
            refs = {k: r for k, r in self.all_refs().items() if keys is None or k in keys}
            there = b.stored_many(list(refs.values()))
            result = {}
            for k, r in refs.items():
                if there[r]:
                    result[k] = observed(b.get(r))
            return result
        finally:
            if b is not self.full:
                close(b)

    def close(self):
        if self.full is not None:
            close(self.full)
            self.full = None


def observed(obj):
    """Comparable form of a stored object."""
    from lsst.daf.butler.logging import ButlerLogRecords
    from lsst.pipe.base import PipelineTaskConfig, TaskMetadata
    from lsst.utils.packages import Packages

    if isinstance(obj, TaskMetadata):
        return {"mark": vptasks.mark_of(obj)}
    if isinstance(obj, ButlerLogRecords):
        keys = {r.message.split()[1] for r in obj if r.message.startswith("running ")}
        return {"log of": keys.pop() if len(keys) == 1 else sorted(keys)}
    if isinstance(obj, PipelineTaskConfig):
        return {"config": obj.value, "spec": obj.spec}
    if isinstance(obj, Packages):
        return {"packages": dict(obj)}
    return obj


ACTIONS = [{"do": "ok"}, {"do": "fail-early"}, {"do": "fail-late"}, {"do": "fail-partial", "mask": 1}, {"do": "fail-partial", "mask": 2},
           {"do": "missing", "mask": 1}, {"do": "missing", "mask": 0}, {"do": "missing", "mask": 2}, {"do": "nowork-early"},
           {"do": "nowork-partial", "mask": 1}, {"do": "fail-repeatable"}, {"do": "fail-algorithm"}, {"do": "partial", "mask": 1, "alg": True},
           {"do": "unprocessable"}, {"do": "nowork-upstream"}]


@st.composite
def action_lists(draw, weight_ok=6, n=12, pool=None):
    """Actions by position in the sorted list of quanta (cycled)."""
    pool = list(range(1, len(ACTIONS))) if pool is None else pool
    return draw(st.lists(st.one_of(*[st.just(0)] * weight_ok, st.sampled_from(pool)), min_size=1, max_size=n))


def assign(flow, indexes):
    return {k: ACTIONS[indexes[i % len(indexes)]] for i, k in enumerate(sorted(flow.s.quanta)) if indexes[i % len(indexes)]}
