"""Executing generated tasks: one quantum at a time (harness and reference model), with generated prior state."""
from __future__ import annotations

import logging

import hypothesis.strategies as st
from lsst.daf.butler import Butler, QuantumBackedButler
from lsst.daf.butler.logging import ButlerLogRecords
from lsst.pipe.base import QuantumSuccessCaveats as C
from lsst.pipe.base import TaskMetadata
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor

import core
import qgs
import vptasks
from core import HarnessError, expect, expect_eq

RUN_TASK = "vptasks.RunTask"


class OneQuantum:
    """A repository with one task, its graph, and one chosen quantum."""

    def __init__(self, d, case):
        spec = case["spec"]
        self.case, self.spec = case, spec
        vptasks.BEHAVIOR.clear()
        vptasks.EVENTS.clear()
        self.repo = repo = qgs.Repo(d)
        dk = {c["name"]: c.get("dk", "e") for t in spec["tasks"] for c in t["conns"]}
        self.stored = {}  # dataset ID -> content
        for name, mask in case["exist"].items():
            repo.register(name, dk[name])
            have = case["stored"].get(name, 0xFFFF)
            for ref in repo.add(name, dk[name], "in1", mask & have, put=True):
                self.stored[ref.id] = qgs.content_of(name, ref.dataId, "in1")
            repo.add(name, dk[name], "in1", mask & ~have & 0xFFFF)
        graph = qgs.make_graph(spec, task_class=RUN_TASK, value=case.get("value", 0))
        builder = AllDimensionsQuantumGraphBuilder(graph, repo.butler, where=case["where"], input_collections=["in1"],
                                                   output_run="out")
        self.qg = builder.finish(attach_datastore_records=case.get("records", True)).assemble()
        self.mode = case["mode"]
        self.graph = self.qg.pipeline_graph
        self.butler = None
        if not len(self.qg):
            self.quantum = None
            return
        self.graph.register_dataset_types(repo.butler)
        self.full = Butler.from_config(repo.root, run="out", writeable=True)
        self.qg.init_output_run(self.full)
        ids = sorted(self.qg, key=lambda i: (self.qg.quantum_only_xgraph.nodes[i]["task_label"],
                                             self.qg.quantum_only_xgraph.nodes[i]["data_id"].required_values))
        self.quantum_id = ids[case["index"] % len(ids)]
        self.quantum = self.qg.build_execution_quanta([self.quantum_id])[self.quantum_id]
        self.label = self.qg.quantum_only_xgraph.nodes[self.quantum_id]["task_label"]
        self.task = {t["label"]: t for t in spec["tasks"]}[self.label]
        self.node = self.graph.tasks[self.label]
        self.key = vptasks.quantum_key(self.label, self.quantum.dataId)
        self.types = {n.name: n.dataset_type for n in self.graph.dataset_types.values()}
        self.outputs = {}  # conn -> refs
        for e in self.node.outputs.values():
            self.outputs[e.connection_name] = list(self.quantum.outputs[e.dataset_type_name])
        (self.metadata_ref,) = self.quantum.outputs[self.node.metadata_output.dataset_type_name]
        (self.log_ref,) = self.quantum.outputs[self.node.log_output.dataset_type_name]

    def limited(self, quantum=None):
        """A butler that sees the stored state of the chosen mode."""
        if self.mode == "full":
            return self.full
        return QuantumBackedButler.initialize(self.repo.root, quantum or self.quantum, self.repo.universe, dataset_types=self.types)

    def executor(self, **kw):
        if self.mode == "full":
            return SingleQuantumExecutor(butler=self.full, **kw)
        return SingleQuantumExecutor(butler=None, limited_butler_factory=self.limited, **kw)

    def all_output_refs(self):
        return [r for refs in self.outputs.values() for r in refs] + [self.metadata_ref, self.log_ref]

    def state(self):
        """Stored content of every output of the quantum."""
        b = self.limited()
        try:
            result = {}
            refs = self.all_output_refs()
            there = b.stored_many(refs)
            for r in refs:
                if there[r]:
                    result[r.id] = simple(b.get(r))
            return result
        finally:
            if b is not self.full:
                b.close()

    def put_stale(self, ref, what):
        b = self.limited()
        try:
            if ref == self.metadata_ref:
                md = TaskMetadata()
                md["stale"] = what
                b.put(md, ref)
            elif ref == self.log_ref:
                b.put(stale_log(what), ref)
            else:
                b.put({"stale": what}, ref)
        finally:
            if b is not self.full:
                b.close()

    def close(self):
        pass


def stale_log(what):
    record = logging.LogRecord("stale", logging.INFO, "f", 1, f"stale {what}", None, None)
    return ButlerLogRecords.from_records([__import__("lsst.daf.butler.logging", fromlist=["x"]).ButlerLogRecord.from_record(record)],
                                         extra={"exception": {"type_name": "stale.Error", "message": what, "metadata": {}}})


def simple(obj):
    if isinstance(obj, TaskMetadata):
        return {"metadata": obj.to_dict()}
    if isinstance(obj, ButlerLogRecords):
        return {"log": [r.message for r in obj], "extra": obj.extra, "mdc": sorted({(r.MDC.get("LABEL"), r.MDC.get("RUN")) for r in obj}),
                "names": [r.name for r in obj]}
    return obj


def split_refs(h):
    """Input refs per connection, in the quantum's order."""
    result = {}
    for c in h.task["conns"]:
        if c["kind"] in ("in", "prereq"):
            result[c["conn"]] = list(h.quantum.inputs[c["name"]])
    return result


class Outcome:
    """What the model predicts."""

    kind = "run"  # or "skip", "refuse", "no-work", "error"
    error = None
    caveats = None


FLAGS = {
    "nowork-early": C.NO_WORK, "nowork-partial": C.NO_WORK, "nowork-upstream": C.NO_WORK | C.UPSTREAM_FAILURE_NO_WORK,
    "unprocessable": C.NO_WORK | C.UNPROCESSABLE_DATA, "partial": C.PARTIAL_OUTPUTS_ERROR,
}
FAILURES = {
    "fail-early": ("vptasks.VPError", "early failure of {}"), "fail-late": ("vptasks.VPError", "late failure of {}"),
    "fail-partial": ("vptasks.VPError", "failure of {} after writing"),
    "fail-repeatable": ("lsst.pipe.base.RepeatableQuantumError", "repeatable failure of {}"),
    "fail-algorithm": ("vptasks.VPAlgorithmError", "algorithm failure of {}"),
}


def predict(h, *, existing, action, skip=False, clobber=False, assume=False, raise_partial=True):
    """Expected outcome of executing the quantum of ``h`` given the IDs of outputs already stored."""
    o = Outcome()
    t = h.task
    if not assume:
        if skip and h.metadata_ref.id in existing:
            o.kind = "skip"
            return o
        if existing:
            if skip and len(existing) == len(h.all_output_refs()):
                o.kind = "skip"
                return o
            if not clobber:
                o.kind = "refuse"
                o.error = "RuntimeError"
                return o
    inputs = split_refs(h)
    present = {conn: [r for r in refs if r.id in h.stored] for conn, refs in inputs.items()}
    missing = any(len(present[c]) < len(inputs[c]) for c in inputs)
    outputs = dict(h.outputs)
    o.readjusted = missing
    if missing:
        if t.get("adjust"):
            new_in, new_out, stop = vptasks.apply_adjust(
                t["adjust"], h.quantum.dataId.required_values,
                {c: [(r.dataId.required_values, r) for r in refs] for c, refs in present.items()},
                {c: [(r.dataId.required_values, r) for r in refs] for c, refs in outputs.items()})
            if stop:
                o.kind = "no-work"
                return o
            present.update({c: [x[1] for x in v] for c, v in new_in.items()})
            outputs.update({c: [x[1] for x in v] for c, v in new_out.items()})
        # default checks, in the order of declaration: regular inputs, then prerequisites
        for kind in ("in", "prereq"):
            for c in t["conns"]:
                if c["kind"] == kind and len(present[c["conn"]]) < c["minimum"]:
                    if kind == "in":
                        o.kind = "no-work"
                    else:
                        o.kind = "error"
                        o.error = "FileNotFoundError"
                    return o
    o.inputs, o.outputs = present, outputs
    do = action["do"]
    if do == "init-fail":
        o.kind, o.error, o.message = "error", "vptasks.VPError", f"cannot construct {h.label}"
        o.constructing = True
        return o
    o.started = True
    # contents
    scalar = {c["conn"]: not c["multiple"] for c in t["conns"] if c["kind"] in ("in", "prereq", "out")}
    digests = {}
    for conn, refs in present.items():
        if scalar[conn]:
            if refs:
                digests[conn] = vptasks.summarize(h.stored[refs[0].id])
        else:
            digests[conn] = sorted(vptasks.summarize(h.stored[r.id]) for r in refs)
    init = {}
    for c in t["conns"]:
        if c["kind"] == "init_in":
            ref = h.qg.get_init_inputs(h.label)[c["conn"]]
            init[c["conn"]] = vptasks.summarize(h.stored.get(ref.id, h.init_contents.get(ref.id) if hasattr(h, "init_contents") else None))
    names = sorted(conn for conn, refs in outputs.items() if refs or not scalar[conn])
    wanted = names
    if do in ("fail-partial", "partial", "missing", "nowork-partial"):
        wanted = [n for i, n in enumerate(names) if (action.get("mask", 1) >> i) & 1]
    if do in ("fail-early", "nowork-early", "fail-late"):
        wanted = []
    o.contents = {}
    for n in wanted:
        for r in outputs[n]:
            o.contents[r.id] = vptasks.make_output(h.label, h.case.get("value", 0), n, r.dataId.required_values, digests, init)
    if do in FAILURES:
        o.kind = "error"
        o.error, message = FAILURES[do]
        o.message = message.format(h.key)
        return o
    if do == "partial" and raise_partial:
        o.kind = "error"
        o.error = "vptasks.VPAlgorithmError" if action.get("alg") else "vptasks.VPError"
        o.message = f"partial failure of {h.key}"
        return o
    flags = FLAGS.get(do, C.NO_CAVEATS)
    expected = {r.id for refs in outputs.values() for r in refs}
    if not o.contents:
        flags |= C.ALL_OUTPUTS_MISSING
    if set(o.contents) != expected:
        flags |= C.ANY_OUTPUTS_MISSING
    o.caveats = flags
    return o


@st.composite
def one_task(draw, adjust=False, missing=True):
    """A single task with inputs, prerequisites and outputs, all inputs registered, some not stored."""
    menu = draw(st.sampled_from((("i", "d", "f", "v", "vd", "x", "xd"), ("t", "p", "pb", "tb"))))
    T = draw(st.sampled_from(menu))
    conns, exist, stored = [], {}, {}
    for j in range(draw(st.integers(1, 3))):
        D = draw(st.sampled_from(menu))
        fits = qgs.subset(D, T)
        multiple = not fits or draw(st.booleans())
        conns.append({"conn": f"in{j}", "kind": "in", "name": f"raw{j}", "sc": qgs.SC, "dk": D, "dims": qgs.sdims(D),
                      "multiple": multiple, "minimum": draw(st.sampled_from((1, 1, 0, 2) if multiple and not fits else (1, 1, 0))),
                      "defer_query": draw(st.integers(0, 5)) == 0, "defer_load": draw(st.integers(0, 2)) == 0})
        exist[f"raw{j}"] = 0xFFFF if draw(st.integers(0, 3)) else draw(qgs.MASKS)
    if draw(st.integers(0, 2)) == 0:
        D = draw(st.sampled_from([m for m in menu if qgs.subset(m, T)] + list(menu)))
        fits = qgs.subset(D, T)
        conns.append({"conn": "pq", "kind": "prereq", "name": "pre0", "sc": qgs.SC, "dk": D, "dims": qgs.sdims(D),
                      "multiple": not fits or draw(st.booleans()), "minimum": draw(st.sampled_from((0, 0, 1))),
                      "defer_load": draw(st.booleans())})
        exist["pre0"] = 0xFFFF
    if draw(st.integers(0, 3)) == 0:
        conns.append({"conn": "ii", "kind": "init_in", "name": "rawinit", "sc": qgs.SC})
        exist["rawinit"] = 0xFFFF
    supers = [m for m in menu if qgs.subset(T, m)]
    for j in range(draw(st.integers(1, 3))):
        O = T if draw(st.booleans()) else draw(st.sampled_from(supers))
        conns.append({"conn": f"out{j}", "kind": "out", "name": f"res{j}", "sc": qgs.SC, "dk": O, "dims": qgs.sdims(O),
                      "multiple": O != T or draw(st.integers(0, 3)) == 0})
    if draw(st.integers(0, 4)) == 0:
        conns.append({"conn": "io", "kind": "init_out", "name": "init0", "sc": qgs.SC})
    task = {"label": "t0", "dk": T, "dims": qgs.sdims(T), "conns": conns}
    for name in exist:
        if name != "rawinit" and missing and draw(st.integers(0, 2)) == 0:
            stored[name] = draw(qgs.MASKS)
    if adjust and draw(st.integers(0, 3)):
        import c11_adjust

        task["adjust"] = draw(c11_adjust.rules_for(task))
    where = "" if menu[0] == "t" else draw(st.sampled_from(("", "instrument='I1'", "instrument='I1' AND detector=1")))
    return {"spec": {"world": "obs", "tasks": [task]}, "exist": exist, "stored": stored, "where": where,
            "index": draw(st.integers(0, 7)), "mode": draw(st.sampled_from(("full", "qbb"))),
            "records": True, "value": draw(st.integers(0, 3))}


ACTIONS = st.one_of(
    st.just({"do": "ok"}),
    st.sampled_from(("fail-early", "fail-late", "nowork-early", "nowork-upstream", "unprocessable", "fail-repeatable",
                     "fail-algorithm", "init-fail")).map(lambda x: {"do": x}),
    st.builds(lambda d, m, a: {"do": d, "mask": m, "alg": a},
              st.sampled_from(("fail-partial", "partial", "missing", "nowork-partial")), st.integers(0, 7), st.booleans()))


def full_name(exc):
    from lsst.utils.introspection import get_full_type_name

    return get_full_type_name(type(exc))


def run_and_compare(h, executor, action, prediction, before, quantum_id=None, **kw):
    """Execute and compare the stored state, the result and the exception with the prediction."""
    vptasks.BEHAVIOR.clear()
    vptasks.BEHAVIOR[h.key] = action
    if action["do"] == "init-fail":
        vptasks.BEHAVIOR["init|" + h.label] = {"do": "fail"}
    vptasks.EVENTS.clear()
    handlers = list(logging.getLogger().handlers)
    result = error = None
    try:
        result = executor.execute(h.node, h.quantum, quantum_id if quantum_id is not None else h.quantum_id, **kw)
    except Exception as exc:
        error = exc
    o = prediction
    what = f"[{o.kind} {action['do']}]"
    expect_eq(logging.getLogger().handlers, handlers, f"{what} logging handlers after execution")
    after = h.state()
    outs = {r.id: (c, r) for c, refs in h.outputs.items() for r in refs}
    if o.kind in ("error", "refuse"):
        expect(error is not None, f"{what} no exception was raised, expected {o.error}")
        expect_eq(full_name(error), o.error, f"{what} exception type ({error})")
        if getattr(o, "message", None):
            expect_eq(str(error), o.message, f"{what} exception message")
    elif error is not None:
        if isinstance(error, core.Violation):
            raise error
        raise core.Violation(f"{what} unexpected {full_name(error)}: {error}") from error
    if o.kind in ("skip", "refuse"):
        expect_eq(after, before, f"{what} stored outputs")
        expect_eq(vptasks.EVENTS, [], f"{what} the task ran")
        if o.kind == "skip":
            expect_eq((result.skipped_existing, result.adjusted_no_work), (True, False), f"{what} result")
        return result, after
    starts = [e for e in vptasks.EVENTS if e["event"] == "start"]
    if getattr(o, "started", False):
        expect_eq(len(starts), 1, f"{what} number of times the task ran")
        (e,) = starts
        scalar = {c["conn"] for c in h.task["conns"] if c["kind"] in ("in", "prereq", "out") and not c["multiple"]}
        for side, refs in (("inputs", o.inputs), ("outputs", o.outputs)):
            deferred = {c["conn"] for c in h.task["conns"] if c.get("defer_load")}
            exp = {c: [[str(v) for v in r.dataId.required_values] + ["DeferredDatasetRef" if c in deferred else "DatasetRef"]
                       for r in rs] for c, rs in refs.items() if rs or c not in scalar}
            expect_eq(e[side], exp, f"{what} references given to the task")
        expect_eq(set(e["scalar"]), {c for c in scalar if {**o.inputs, **o.outputs}[c]}, f"{what} single-valued connections")
    else:
        expect_eq(starts, [], f"{what} the task ran")
    contents = getattr(o, "contents", {})
    for i, (conn, r) in outs.items():
        expect_eq(after.get(i), contents.get(i), f"{what} content of output {r}")
    if o.kind == "error":
        expect(h.metadata_ref.id not in after, f"{what} metadata was stored for a failed quantum")
        log = after.get(h.log_ref.id)
        if getattr(o, "constructing", False):
            expect(log is not None, f"{what} no log was stored for a failed quantum")
            expect_eq((log["extra"].get("exception") or {}).get("type_name"), o.error, f"{what} exception recorded in the log")
        if getattr(o, "started", False):
            expect(log is not None, f"{what} no log was stored for a failed quantum")
            expect_eq((log["extra"].get("exception") or {}).get("type_name"), o.error, f"{what} exception recorded in the log")
            expect_eq((log["extra"].get("exception") or {}).get("message"), o.message, f"{what} message recorded in the log")
            md = log["extra"].get("metadata")
            expect(md is not None, f"{what} metadata of a failed quantum is missing in its log")
        return None, after
    md = after.get(h.metadata_ref.id)
    expect(md is not None, f"{what} no metadata was stored")
    md = md["metadata"]
    expect(h.log_ref.id in after, f"{what} no log was stored")
    expect_eq(result.skipped_existing, False, f"{what} skipped flag")
    expect_eq(result.adjusted_no_work, o.kind == "no-work", f"{what} adjusted flag")
    caveats = C(md["quantum"]["caveats"])
    if o.kind == "no-work":
        expect_eq(caveats, C.NO_WORK | C.ADJUST_QUANTUM_RAISED | C.ANY_OUTPUTS_MISSING | C.ALL_OUTPUTS_MISSING, f"{what} caveats")
        expect_eq(md["quantum"].get("outputs", []), [], f"{what} outputs in the metadata")
    else:
        expect_eq(caveats, o.caveats, f"{what} caveats")
        expect_eq(md[h.label]["mark"], h.key, f"{what} task metadata")
        got = md["quantum"].get("outputs", [])
        got = [got] if isinstance(got, str) else got
        expect_eq(sorted(got), sorted(str(i) for i in contents), f"{what} outputs in the metadata")
    expect_eq(simple(result.task_metadata), {"metadata": md}, f"{what} metadata of the result")
    return result, after
