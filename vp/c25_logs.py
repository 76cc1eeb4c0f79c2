"""C25: logs and earlier attempts of quanta are kept, in order, with the right data."""
from __future__ import annotations

import logging
import os

import hypothesis.strategies as st
from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords, ButlerMDC
from lsst.pipe.base import TaskMetadata
from lsst.pipe.base.log_capture import LogCapture
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph  # noqa: F401
from lsst.pipe.base.quantum_graph._provenance import ProvenanceQuantumScanModels

import core
import synth
import vptasks
import wf
from core import expect, expect_eq

PROPERTY = "C25"
RULE = "some quantum was attempted at least twice, or at least two quanta were run, and at least one record was emitted by a task"

TEXT = st.one_of(st.sampled_from(["", "plain", "two\nlines", "100% {brace} %s %d", "###EXTRA###", "é — ☃ \u2028", "x" * 500, '"quoted" \\ back', "}\n{", "null"]),
                 st.text(max_size=12))
LOGGERS = ["task", "vpemit", "vpemit.sub", "lsst.other", "root.ish"]
DOS = ["ok", "ok", "fail-early", "fail-late", "fail-partial", "missing", "nowork-early", "partial", "interrupt", "fail-algorithm", "init-fail"]


@st.composite
def cases(draw):
    spec = draw(synth.graph_specs(max_tasks=2, max_det=2, init=False, empty_tasks=False))
    ops = []
    for i in range(draw(st.integers(1, 7))):
        ops.append({"q": draw(st.integers(0, 2)), "do": draw(st.sampled_from(DOS)),
                    "emit": [[draw(st.sampled_from(["plain", "plain", "args", "exc", "mdc", "thread"])), draw(st.sampled_from(LOGGERS)),
                              draw(st.sampled_from([logging.DEBUG, logging.INFO, logging.INFO, logging.WARNING, logging.ERROR, 15])), draw(TEXT)]
                             for _ in range(draw(st.integers(0, 4)))],
                    "opts": draw(st.sampled_from(["clobber", "clobber", "clobber", "clobber", "skip", "skip+clobber", "none"])),
                    "new": draw(st.integers(0, 3)) == 0, "records": draw(st.integers(0, 3)) == 0, "noise": draw(st.booleans()),
                    "no_id": draw(st.integers(0, 9)) == 0})
    return {"spec": spec, "ops": ops, "mode": draw(st.sampled_from(["full", "full", "qbb"])), "stream": draw(st.sampled_from([True, True, False])),
            "partial_ok": draw(st.booleans()), "factory": draw(st.sampled_from([True, True, False])),
            "levels": draw(st.lists(st.sampled_from([logging.DEBUG, logging.INFO, logging.WARNING]), min_size=4, max_size=4))}


class Reference(logging.Handler):
    """Everything that reaches the root logger, in order."""

    def __init__(self):
        super().__init__(0)
        self.seen = []

    def emit(self, record):
        self.seen.append(ButlerLogRecord.from_record(record))


def form(r):
    return {"name": r.name, "level": r.levelno, "message": r.message, "mdc": dict(r.MDC), "exc": bool(r.exc_info), "file": r.filename, "line": r.lineno}


def files_of(root, run):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(os.path.join(root, run)) for f in fs)


class Attempt:
    def __init__(self, n, key):
        self.n, self.key = n, key
        self.ok = None
        self.exception = None
        self.records = None
        self.previous_process = None
        self.marked = True

    def extra(self, last):
        """Expected information about the attempt, from its log."""
        return {"exception": self.exception, "mark": None if self.ok else (self.n if self.marked else "no task"), "quanta": self.previous_process,
                "logs": [] if last else [form(r) for r in self.records]}


def mark_of(md):
    """Which attempt some metadata is from."""
    if md is None:
        return None
    for v in md.metadata.values():
        if "attempt" in v.scalars:
            return v.scalars["attempt"]
    return "no task"


def extra_form(extra):
    md = extra.get("metadata")
    mark = mark_of(TaskMetadata.model_validate(md) if isinstance(md, dict) else md)
    exc = extra.get("exception")
    return {"exception": (exc["type_name"], exc["message"]) if exc else None, "mark": mark,
            "quanta": [str(x) for x in extra.get("previous_process_quanta") or []],
            "logs": [form(ButlerLogRecord.model_validate(r) if isinstance(r, dict) else r) for r in extra.get("logs") or []]}


def check(case):
    old = (LogCapture.stream_json_logs, logging.getLogRecordFactory())
    LogCapture.stream_json_logs = case["stream"]
    names = ["vptasks", "vpemit", "lsst.other", "root.ish"]
    levels = {n: logging.getLogger(n).level for n in names}
    root = logging.getLogger()
    ref = Reference()
    before = None
    try:
        if case["factory"]:
            ButlerMDC.add_mdc_log_record_factory()
        with core.scratch_dir() as d:
            f = wf.Flow(d, case["spec"], mode=case["mode"])
            f.prepare()
            for n, lvl in zip(names, case["levels"]):
                logging.getLogger(n).setLevel(lvl)
            root.addHandler(ref)
            before = list(root.handlers)
            return run(case, f, ref, before)
    finally:
        root.removeHandler(ref)
        for h in list(root.handlers):
            if before is not None and h not in before:
                root.removeHandler(h)
        LogCapture.stream_json_logs = old[0]
        logging.setLogRecordFactory(old[1])
        ButlerMDC.clear_mdc()
        for n, lvl in levels.items():
            logging.getLogger(n).setLevel(lvl)


def run(case, f, ref, handlers):
    keys = sorted(f.s.quanta)[:3]
    if not keys:
        return False
    quanta = f.qg.build_execution_quanta([f.s.quanta[k]["id"] for k in keys])
    stored = {}
    """dataset key -> True, for outputs"""
    attempts = {k: [] for k in keys}
    executor, history = None, []
    kwargs = None
    n_files = None
    emitted = 0
    for n, op in enumerate(case["ops"]):
        key = keys[op["q"] % len(keys)]
        q = f.s.quanta[key]
        quantum, node = quanta[q["id"]], f.qg.pipeline_graph.tasks[key[0]]
        kw = {"clobber_outputs": "clobber" in op["opts"], "skip_existing": "skip" in op["opts"], "raise_on_partial_outputs": not case["partial_ok"]}
        if executor is None or op["new"]:
            executor, history, kwargs = f.executor(**kw), [], kw
        # options belong to the executor
        kw = kwargs
        if op["noise"]:
            with ButlerMDC.set_mdc({"LABEL": "noise", "OUTER": "1"}):
                logging.getLogger("vpemit.noise").error("noise before %d", n)
        vptasks.BEHAVIOR.clear()
        action = {"do": op["do"], "mask": 1, "logs": 1, "attempt": n, "emit": op["emit"]}
        if op["do"] == "init-fail":
            vptasks.BEHAVIOR["init|" + key[0]] = {"do": "fail"}
            action["do"] = "ok"
        vptasks.BEHAVIOR[f.qkey(key)] = action
        mdc_before = dict(ButlerMDC._MDC)
        start = len(ref.seen)
        given = ButlerLogRecords.from_records([]) if op["records"] else None
        error, result = None, None
        quantum_id = None if op["no_id"] else q["id"]
        try:
            result = executor.execute(node, quantum, quantum_id=quantum_id, log_records=given)
        except Exception as e:  # noqa: BLE001
            error = e
        except KeyboardInterrupt as e:
            error = e
        during = ref.seen[start:]
        logging.getLogger("vpemit.noise").error("noise after %d", n)
        expect_eq([type(h).__name__ for h in logging.getLogger().handlers], [type(h).__name__ for h in handlers], "handlers left installed")
        expect(all(a is b for a, b in zip(logging.getLogger().handlers, handlers)), "handlers replaced")
        expect_eq({k: v for k, v in ButlerMDC._MDC.items() if v}, {k: v for k, v in mdc_before.items() if v}, "logging context left behind")
        # ---- what should have happened
        (md,) = q["out"]["_metadata"]
        (log,) = q["out"]["_log"]
        mine = f.outputs_of(key)
        there = [k for k in mine if k in stored]
        skipped = refused = False
        if kw["skip_existing"] and md in stored:
            skipped = True
        elif there and not kw["clobber_outputs"]:
            refused = True
        if skipped or refused:
            expect_eq(error is not None, refused, f"refusal of {key} with {sorted(there)} present and {kw}: {error!r}")
            if skipped:
                expect(result.skipped_existing, "a skipped quantum is reported as such")
        else:
            a = Attempt(n, key)
            do = op["do"]
            failed = do.startswith("fail") or do in ("interrupt", "init-fail") or (do == "partial" and not case["partial_ok"])
            expect_eq(error is not None, failed, f"failure of attempt {n} ({do}): {error!r}")
            a.ok = not failed
            a.marked = do != "init-fail"
            if failed and do != "interrupt":
                a.exception = (f"{type(error).__module__}.{type(error).__qualname__}", str(error))
            a.previous_process = [str(x) for x in history]
            if quantum_id is not None:
                history.append(quantum_id)
            for k in there:
                stored.pop(k)
            stored[log] = True
            if a.ok:
                stored[md] = True
            names_out = sorted(c for c in q["out"] if c not in ("_metadata", "_log"))
            for i, c in enumerate(names_out):
                full = do in ("ok", "fail-algorithm")
                if full or (do in ("fail-partial", "missing", "partial") and (1 >> i) & 1):
                    for k in q["out"][c]:
                        stored[k] = True
            attempts[key].append(a)
        # ---- the stored logs of every quantum
        store = f.store()
        try:
            for k in keys:
                (lk,) = f.s.quanta[k]["out"]["_log"]
                (mk,) = f.s.quanta[k]["out"]["_metadata"]
                refs = {x: f.ref(x) for x in f.outputs_of(k)}
                exist = store.stored_many(list(refs.values()))
                expect_eq({x for x, r in refs.items() if exist[r]}, {x for x in refs if x in stored}, f"outputs of {k} after operation {n}")
                if not attempts[k]:
                    continue
                log_obj = store.get(refs[lk])
                last = attempts[k][-1]
                if k == key and not (skipped or refused):
                    got = [form(r) for r in log_obj]
                    if given is not None:
                        expect_eq([form(r) for r in given], got, "records handed to the caller")
                    seg = [form(r) for r in during]
                    task_made = [i for i, r in enumerate(seg) if not r["name"].startswith(("lsst.pipe.base", "timer", "lsst.daf"))]
                    pos = [i for i in range(len(seg) - len(got) + 1) if seg[i: i + len(got)] == got]
                    expect(bool(pos), f"the stored log is not what was emitted: stored {got}, emitted {seg}")
                    expect(any(all(i <= t < i + len(got) for t in task_made) for i in pos),
                           f"records of the task are missing from the stored log: stored {got}, emitted {seg}")
                    own = [r for r in seg if r["name"].startswith("lsst.pipe.base.single_quantum_executor")]
                    expect_eq([r for r in got if r["name"].startswith("lsst.pipe.base.single_quantum_executor")], own, "records of the executor")
                    if case["factory"]:
                        label = f"{k[0]}:{quantum.dataId}" if quantum.dataId else k[0]
                        for r in got:
                            expect_eq((r["mdc"].get("LABEL"), r["mdc"].get("RUN")), (label, f.run), "context of a record")
                    last.records = list(log_obj)
                else:
                    expect_eq([form(r) for r in log_obj], [form(r) for r in last.records], f"log of {k} after an operation on {key}")
                extra = log_obj.extra or {}
                expect_eq(extra_form(extra), last.extra(True), f"information about the last attempt of {k}")
                prev = extra.get("previous_attempts") or []
                for p in prev:
                    expect_eq(p.get("previous_attempts") or [], [], "nested attempts")
                expect_eq([extra_form(p) for p in prev], [a.extra(False) for a in attempts[k][:-1]], f"earlier attempts of {k}")
                scan(f, k, attempts[k], store.get(refs[mk]) if mk in stored else None, log_obj)
        finally:
            if store is not f.full:
                wf.close(store)
        emitted += len(during)
        files = files_of(f.root, f.run)
        n_files = len(files) - len(stored) if n_files is None else n_files
        expect_eq(len(files), len(stored) + n_files, f"files in the output run after operation {n}: {files}")
    return (any(len(a) > 1 for a in attempts.values()) or sum(bool(a) for a in attempts.values()) > 1) and emitted > 0


def scan(f, k, attempts, md, logs):
    """The attempts as provenance sees them."""
    predicted = f.s.components.quantum_datasets[f.s.quanta[k]["id"]]
    m = ProvenanceQuantumScanModels.from_metadata_and_logs(predicted, md, logs)
    expect_eq([a.attempt for a in m.attempts], list(range(len(attempts))), f"attempt numbers of {k}")
    expect_eq([[form(r) for r in x] for x in m.logs.attempts], [[form(r) for r in a.records] for a in attempts], f"logs by attempt of {k}")
    expect_eq(len(m.metadata.attempts), len(attempts), f"metadata by attempt of {k}")
    marks = [mark_of(x) for x in m.metadata.attempts]
    want = [a.extra(True)["mark"] for a in attempts[:-1]] + [attempts[-1].n if attempts[-1].marked else "no task"]
    expect_eq(marks, want, f"metadata by attempt of {k}")
    excs = [(a.exception.type_name, a.exception.message) if a.exception else None for a in m.attempts]
    for i, a in enumerate(attempts):
        if a.ok and i == len(attempts) - 1:
            continue  # the exception of a partial success comes from its metadata
        expect_eq(excs[i], a.exception, f"exception of attempt {i} of {k}")
        if not a.ok:
            expect_eq(m.attempts[i].status.name, "FAILED", f"status of attempt {i}")
    if attempts[-1].ok:
        expect_eq(m.attempts[-1].status.name, "SUCCESSFUL", "status of the last attempt")
    expect_eq([[str(x) for x in a.previous_process_quanta] for a in m.attempts], [a.previous_process for a in attempts], "quanta run earlier")


FACETS = [core.Facet("attempts", cases, check, quick=400, thorough=8000)]
