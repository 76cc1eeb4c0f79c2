"""C19: provenance graphs record exactly what happened to every quantum."""
from __future__ import annotations

import contextlib
import datetime
import io
import json
import os
import uuid

import hypothesis.strategies as st

import core
import qgs
import synth
import wf
from core import Facet, expect, expect_eq, must_raise

LEVEL = "exploration"
RULE = ("generated quantum graphs with a generated execution history per quantum (earlier failed attempts with or without metadata, "
        "final success with caveats or partial-output errors, failure, hard abort, blocked), written through the provenance writer in "
        "generated order and read in generated pieces, or executed for real in one process; non-trivial if the graph has edges and at "
        "least two different outcomes")

T0 = datetime.datetime(2026, 1, 2, 3, 4, 5, 250000, tzinfo=datetime.UTC)
VALUES = st.one_of(st.integers(-5, 5), st.floats(allow_nan=False), st.booleans(), st.text(max_size=4),
                   st.lists(st.integers(-3, 3), min_size=1, max_size=3), st.lists(st.text(max_size=2), min_size=1, max_size=2))


@st.composite
def attempts(draw):
    return {"exc": draw(st.booleans()), "md": draw(st.booleans()), "logs": draw(st.integers(0, 3)), "ppq": draw(st.integers(0, 2)),
            "t": draw(st.lists(st.integers(0, 5000), min_size=4, max_size=4)), "stage": draw(st.integers(0, 2)),
            "mem": draw(st.integers(0, 10**9)), "outs": draw(st.sampled_from([0xFFFF, 0xFFFF, 0, 0x55, 2])),
            "extra": draw(st.dictionaries(st.sampled_from(["a", "b", "c d", "é"]), VALUES, max_size=2)),
            "text": draw(st.sampled_from(["", "x", "naïve \n\t\"quoted\"", "\u2028 %s {}", "y" * 500]))}


@st.composite
def histories(draw):
    return {"prev": draw(st.lists(attempts(), max_size=3)) if draw(st.integers(0, 2)) == 0 else [], "last": draw(attempts()),
            "kind": draw(st.sampled_from(["success"] * 4 + ["partial", "failed", "failed", "early", "abort-success", "nothing", "blocked"])),
            "caveats": draw(st.integers(0, 127)), "how": draw(st.sampled_from(["api", "api", "scan", "raw"])),
            "err_md": draw(st.booleans())}


@st.composite
def cases(draw):
    g = draw(synth.graph_specs(max_tasks=draw(st.integers(1, 4)), init=True))
    plans = []
    for _ in range(draw(st.integers(1, 3))):
        plan = []
        for _ in range(draw(st.integers(1, 4))):
            op = draw(st.sampled_from(["init", "quanta", "quanta", "datasets", "datasets", "full"]))
            step = {"op": op}
            if op in ("quanta", "datasets"):
                step["mask"] = draw(st.one_of(st.none(), st.integers(0, 2**16 - 1)))
                step["gen"] = draw(st.booleans())
            plan.append(step)
        plans.append(plan)
    return {"graph": g, "hist": draw(st.lists(histories(), min_size=1, max_size=6)), "perm": draw(st.integers(0, 10**6)),
            "plans": plans, "predicted": draw(st.sampled_from(["components", "graph"])), "assume": draw(st.integers(0, 2)) > 0,
            "init_mask": draw(st.integers(0, 255)), "inputs_first": draw(st.booleans()), "fetch": draw(st.integers(0, 2**16 - 1)),
            "states": draw(st.integers(0, 63)), "with_caveats": draw(st.sampled_from([None, 1, 16, 127])),
            "args": {"q": draw(st.one_of(st.none(), st.integers(0, 2**16 - 1))), "d": draw(st.one_of(st.none(), st.integers(0, 2**16 - 1)))}}


# --- building the inputs of the writer --------------------------------------------------------------------------


def make_metadata(a, label, output_ids, *, failure=None, caveats=None):
    """Full task metadata as the single-quantum executor writes it, and the resource usage it describes."""
    from lsst.pipe.base import TaskMetadata

    md, task, q = TaskMetadata(), TaskMetadata(), TaskMetadata()
    for k, v in a["extra"].items():
        task[k] = v
    if failure is not None:
        f = TaskMetadata()
        f["type"], f["message"] = failure["type_name"], failure["message"]
        if failure["metadata"] is not None:
            fm = TaskMetadata()
            for k, v in failure["metadata"].items():
                fm[k] = v
            fm["nested"] = TaskMetadata()
            f["metadata"] = fm
        task["failure"] = f
    md[label] = task
    t = [T0]
    for ms in a["t"]:
        t.append(t[-1] + datetime.timedelta(milliseconds=ms))
    q["prepUtc"] = t[0].isoformat()
    if a["stage"] > 0:
        q["initUtc"] = t[1].isoformat()
    if a["stage"] > 1:
        q["startUtc"] = t[2].isoformat()
        q["startCpuTime"] = 1.5
    q["endUtc"] = t[3].isoformat()
    q["endCpuTime"] = 4.0
    q["endMaxResidentSetSize"] = a["mem"]
    q["outputs"] = [str(i) for i in output_ids]
    if caveats is not None:
        q["caveats"] = caveats
    md["quantum"] = q
    i = t[1] if a["stage"] > 0 else t[3]
    r = t[2] if a["stage"] > 1 else t[3]
    usage = {"memory": a["mem"], "start": T0, "prep_time": (i - t[0]).total_seconds(), "init_time": (r - i).total_seconds(),
             "run_time": (t[3] - r).total_seconds(), "run_time_cpu": 2.5 if a["stage"] > 1 else 0.0}
    return md, usage


def make_logs(a, tag):
    import logging

    from lsst.daf.butler.logging import ButlerLogRecord

    out = []
    for n in range(a["logs"]):
        r = logging.LogRecord(f"lg.{tag}", [logging.INFO, logging.WARNING, logging.ERROR][n % 3], f"/x/{tag}.py", n + 1, f"{tag} {n} " + a["text"],
                              None, None)
        r.created = 1767322000.0 + n / 8
        r.MDC = {"LABEL": tag, "RUN": "u/out"}
        out.append(ButlerLogRecord.from_record(r))
    return out


class Expected:
    """Ground truth for one quantum."""

    def __init__(self, s, key, h, n):
        from lsst.daf.butler.logging import ButlerLogRecords
        from lsst.pipe.base.quantum_graph import ProvenanceQuantumScanModels  # noqa: F401

        q = s.quanta[key]
        self.key, self.q, self.h = key, q, h
        self.kind = kind = h["kind"]
        outs = [s.datasets[d]["id"] for c, ks in q["out"].items() if not c.startswith("_") for d in ks]
        self.md_id = s.datasets[q["out"]["_metadata"][0]]["id"]
        self.log_id = s.datasets[q["out"]["_log"][0]]["id"]
        self.attempts, self.logs, self.metadata = [], [], []
        self.produced = {i: False for i in outs + [self.md_id, self.log_id]}
        extras = []
        if kind == "blocked":
            return

        def exc(a, tag):
            return {"type_name": f"pkg.Err{len(a['text']) % 3}", "message": f"{tag}: {a['text']}", "metadata": {}}

        has_log = kind not in ("abort-success", "nothing")
        prev = h["prev"] if has_log else []
        for i, a in enumerate(prev):
            tag = f"{key[0]}#{n}.{i}"
            e = {"previous_process_quanta": [str(uuid.UUID(int=1000 + i * 10 + j)) for j in range(a["ppq"])]}
            usage = md = None
            if a["exc"]:
                e["exception"] = exc(a, tag)
            if a["md"]:
                md, usage = make_metadata(a, key[0], [x for j, x in enumerate(outs) if synth.bit(a["outs"], j)])
                e["metadata"] = md.model_dump()
            logs = make_logs(a, tag)
            e["logs"] = [r.model_dump(mode="json") for r in logs]
            extras.append(e)
            self.attempts.append({"attempt": i, "status": "FAILED", "caveats": None, "exception": e.get("exception"), "usage": usage,
                                  "ppq": e["previous_process_quanta"]})
            self.logs.append(logs)
            self.metadata.append(md)
        a = h["last"]
        tag = f"{key[0]}#{n}.last"
        extra = {"previous_attempts": extras, "previous_process_quanta": [str(uuid.UUID(int=2000 + j)) for j in range(a["ppq"])]} if has_log else {}
        self.md_arg = self.log_arg = None
        put = [x for j, x in enumerate(outs) if synth.bit(a["outs"], j)]
        usage = md = e = None
        caveats = None
        if kind in ("success", "partial", "abort-success"):
            if kind == "partial":
                e = exc(a, tag)
                e["metadata"] = {"k": 3, "s": "é"} if h["err_md"] else None
            caveats = h["caveats"]
            md, usage = make_metadata(a, key[0], put, failure=e, caveats=caveats)
            if e and e["metadata"] is None:
                e["metadata"] = {}
            self.md_arg = md
            self.produced[self.md_id] = True
            status = "ABORTED_SUCCESS" if kind == "abort-success" else "SUCCESSFUL"
        elif kind == "failed":
            e = exc(a, tag)
            md, usage = make_metadata(a, key[0], put)
            extra["exception"] = e
            extra["metadata"] = md.model_dump()
            status = "FAILED"
        elif kind == "early":
            # failed before the task was even constructed: the log has no further information, and nothing was written
            put = []
            status = "FAILED"
        else:
            put = []
            status = "UNKNOWN"
        for i in put:
            self.produced[i] = True
        logs = None
        if has_log:
            logs = make_logs(a, tag)
            self.log_arg = ButlerLogRecords.from_records(logs, extra=json.loads(json.dumps(extra)))
            self.produced[self.log_id] = True
        self.attempts.append({"attempt": len(prev), "status": status, "caveats": caveats, "exception": e, "usage": usage,
                              "ppq": extra.get("previous_process_quanta", [])})
        self.logs.append(logs)
        self.metadata.append(md)

    @property
    def status(self):
        return self.attempts[-1]["status"] if self.attempts else "BLOCKED"


def attempt_dict(a):
    return {"attempt": a.attempt, "status": a.status.name, "caveats": None if a.caveats is None else int(a.caveats.value),
            "exception": None if a.exception is None else a.exception.model_dump(), "usage": None if a.resource_usage is None else a.resource_usage.model_dump(),
            "ppq": [str(x) for x in a.previous_process_quanta]}


def canon_md(md):
    return None if md is None else repr(md.model_dump())


def canon_logs(logs):
    return None if logs is None else [r.model_dump() for r in logs]


def write(case, s, expected, path):
    from lsst.pipe.base.log_on_close import LogOnClose
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphWriter, ProvenanceQuantumScanModels, ProvenanceQuantumScanStatus

    predicted = s.components if case["predicted"] == "components" else s.components.assemble()
    models = dict(s.components.quantum_datasets)
    init = {q.task_label: q for q in s.components.init_quanta.root}
    existing_init = {}
    with contextlib.ExitStack() as stack:
        w = ProvenanceQuantumGraphWriter(path, exit_stack=stack, log_on_close=LogOnClose(lambda *a, **k: None), predicted=predicted)
        if case["inputs_first"]:
            w.write_overall_inputs()
        keys = sorted(expected)
        rnd = __import__("random").Random(case["perm"])
        rnd.shuffle(keys)
        for k in keys:
            e = expected[k]
            qid = e.q["id"]
            if e.kind == "blocked":
                w.write_blocked_quantum_provenance(qid)
            elif e.h["how"] == "api":
                w.write_quantum_provenance(qid, metadata=e.md_arg, logs=e.log_arg)
            else:
                m = ProvenanceQuantumScanModels.from_metadata_and_logs(models[qid], e.md_arg, e.log_arg)
                for i, yes in e.produced.items():
                    # what a caller that looks for the files itself would add
                    m.output_existence.setdefault(i, yes)
                w.write_scan_data(m.to_scan_data(models[qid], compressor=w.compressor if e.h["how"] == "scan" else None))
        for label, q in init.items():
            if not label:
                continue
            ids = [d.dataset_id for ds in q.outputs.values() for d in ds]
            there = {i for n, i in enumerate(ids) if synth.bit(case["init_mask"], n)}
            for i in ids:
                existing_init[i] = case["assume"] or i in there
            m = ProvenanceQuantumScanModels(q.quantum_id, status=ProvenanceQuantumScanStatus.INIT,
                                            output_existence={i: i in there for i in ids})
            w.write_scan_data(m.to_scan_data(q, compressor=w.compressor))
        if not case["inputs_first"]:
            w.write_overall_inputs()
        w.write_packages()
        w.write_init_outputs(assume_existence=case["assume"])
    return existing_init


class Truth:
    """Nodes and relations that a provenance graph of this execution must show."""

    def __init__(self, s, expected, existing_init):
        self.s, self.expected = s, expected
        self.by_id = {e.q["id"]: e for e in expected.values()}
        self.init_id = {q.task_label: q.quantum_id for q in s.components.init_quanta.root if q.task_label}
        self.ds = {}
        for k, d in s.datasets.items():
            if k[0] == "packages":
                continue
            self.ds[d["id"]] = {"name": k[0], "values": k[1], "dk": d["dk"], "run": d["run"], "producer": None, "consumers": set(), "produced": True}
        self.reads, self.writes = {}, {}
        for k, q in s.quanta.items():
            for c, ks in q["in"].items():
                for x in ks:
                    i = s.datasets[x]["id"]
                    self.ds[i]["consumers"].add(q["id"])
                    self.reads.setdefault((i, q["id"]), []).append(c)
            for c, ks in q["out"].items():
                for x in ks:
                    i = s.datasets[x]["id"]
                    self.ds[i]["producer"] = q["id"]
                    self.ds[i]["produced"] = expected[k].produced[i]
                    self.writes.setdefault((q["id"], i), []).append(c)
        for label, x in s.init.items():
            if not label:
                continue
            for c, k in x["in"].items():
                i = s.datasets[k]["id"]
                self.ds[i]["consumers"].add(self.init_id[label])
                self.reads.setdefault((i, self.init_id[label]), []).append(c)
            for c, k in x["out"].items():
                i = s.datasets[k]["id"]
                self.ds[i]["producer"] = self.init_id[label]
                self.ds[i]["produced"] = existing_init[i]
                self.writes.setdefault((self.init_id[label], i), []).append(c)
        self.edges = set(self.reads) | set(self.writes)
        self.q_edges = s.id_edges()

    def check(self, graph, quanta, datasets, init, full):
        """``graph`` after the given quanta and datasets (and init quanta) were read."""
        s = self.s
        bi, qo = graph.bipartite_xgraph, graph.quantum_only_xgraph
        inits = set(self.init_id.values())
        all_nodes = set(self.ds) | set(self.by_id) | inits
        expect(set(bi) <= all_nodes, f"unknown nodes in the graph: {set(bi) - all_nodes}")
        expect(set(bi.edges) <= self.edges, "edges that are not in the predicted graph")
        expect(set(qo) <= set(self.by_id), f"nodes in the quantum-only graph that are not quanta: {set(qo) - set(self.by_id)}")
        expect(set(qo.edges) <= self.q_edges, f"wrong quantum edges {set(qo.edges) - self.q_edges}")
        auto = {x for q in quanta for x in (self.by_id[q].md_id, self.by_id[q].log_id)}
        made_by_init = {i for i, d in self.ds.items() if d["producer"] in inits} if init else set()
        want_edges = {(a, b) for a, b in self.edges if a in quanta or b in quanta or a in datasets or b in datasets or
                      (init and (a in inits or b in inits))}
        expect(want_edges <= set(bi.edges), f"missing edges {len(want_edges - set(bi.edges))}: {list(want_edges - set(bi.edges))[:3]}")
        if full:
            expect_eq(set(qo.edges), self.q_edges, "quantum edges")
            expect_eq(set(qo), set(self.by_id), "quanta")
            expect_eq(set(bi), all_nodes, "nodes")
        for a, b in self.q_edges:
            if a in quanta and b in quanta:
                expect(qo.has_edge(a, b), f"no edge between the loaded quanta {a} and {b}")
        for i in datasets | auto | made_by_init:
            d = self.ds[i]
            n = bi.nodes[i]
            expect("pipeline_node" in n, f"dataset {d['name']}@{d['values']} has no attributes")
            expect_eq((n["dataset_type_name"], n["data_id"].required_values, n["run"], n["produced"], n["pipeline_node"].name),
                      (d["name"], d["values"], d["run"], n["produced"] if i in made_by_init - datasets else d["produced"], d["name"]), f"dataset {d['name']}@{d['values']}")
            expect_eq(graph.datasets_by_type[d["name"]].get(n["data_id"]), i, "dataset by type")
        for q in quanta:
            e = self.by_id[q]
            for g, what in ((bi, "bipartite"), (qo, "quantum-only")):
                n = g.nodes[q]
                expect("status" in n, f"quantum {e.key} has no attributes in the {what} graph")
                expect_eq((n["task_label"], n["data_id"].required_values, n["pipeline_node"].label), (e.key[0], e.key[1], e.key[0]), "quantum")
                expect_eq(n["status"].name, e.status, f"status of {e.key} ({e.kind})")
                expect_eq([attempt_dict(a) for a in n["attempts"]], e.attempts, f"attempts of {e.key} ({e.kind})")
                last = e.attempts[-1] if e.attempts else {"caveats": None, "exception": None, "usage": None}
                expect_eq(None if n["caveats"] is None else n["caveats"].value, last["caveats"], f"caveats of {e.key}")
                expect_eq(None if n["exception"] is None else n["exception"].model_dump(), last["exception"], f"exception of {e.key}")
                expect_eq(None if n["resource_usage"] is None else n["resource_usage"].model_dump(), last["usage"], f"resource usage of {e.key}")
                expect_eq((n["metadata_id"], n["log_id"]), (e.md_id, e.log_id), "IDs of metadata and log")
            expect_eq(graph.quanta_by_task[e.key[0]].get(bi.nodes[q]["data_id"]), q, "quantum by task")
        for (a, b), conns in self.reads.items():
            if b in quanta or (init and b in inits):
                x = bi.edges[a, b]
                expect_eq((x["is_read"], sorted(p.connection_name for p in x["pipeline_edges"])), (True, sorted(conns)), "read edge")
        for (a, b), conns in self.writes.items():
            if a in quanta or (init and a in inits):
                x = bi.edges[a, b]
                expect_eq((x["is_read"], sorted(p.connection_name for p in x["pipeline_edges"])), (False, sorted(conns)), "write edge")
        if init:
            expect_eq(dict(graph.init_quanta), self.init_id, "init quanta")
            for label, i in self.init_id.items():
                expect_eq((bi.nodes[i]["task_label"], bi.nodes[i]["data_id"].required_values), (label, ()), "init quantum")
                expect_eq(bi.nodes[i]["config_id"], s.datasets[label + "_config", ()]["id"], "config of an init quantum")
        n_q = sum(len(v) for v in graph.quanta_by_task.values())
        expect_eq(n_q, len(quanta), "number of loaded quanta")


def pick(items, mask):
    return [x for n, x in enumerate(sorted(items, key=str)) if mask is None or synth.bit(mask, n)]


def check_tables(graph, case, expected, d):
    from lsst.pipe.base import QuantumAttemptStatus, QuantumSuccessCaveats

    tasks = {}
    for e in expected.values():
        tasks.setdefault(e.key[0], []).append(e)
    rows = {r["Task"]: r for r in graph.make_quantum_table(as_table=False, expand_caveats=True)}
    expect_eq(set(rows), set(tasks), "tasks in the table")
    for label, es in tasks.items():
        r = rows[label]
        for st_ in QuantumAttemptStatus:
            expect_eq(r[st_.title], sum(e.status == st_.name for e in es), f"{st_.title} quanta of {label}")
        expect_eq((r["TOTAL"], r["EXPECTED"]), (len(es), len(es)), "totals")
        counts = {}
        for e in es:
            c = e.attempts[-1]["caveats"] if e.attempts else None
            if c:
                s = QuantumSuccessCaveats(c)
                counts[s] = counts.get(s, 0) + 1
        want = sorted(f"{s.concise()}({n})" for s, n in counts.items())
        expect_eq(sorted(x for x in r["Caveats"].split(",") if x), want, f"caveats of {label}")
    table = graph.make_quantum_table()
    expect_eq(len(table), len(rows), "rows of the quantum table")
    for st_ in QuantumAttemptStatus:
        total = sum(e.status == st_.name for e in expected.values())
        if total and len(table):
            expect_eq(int(sum(table[st_.title])), total, f"{st_.title} in the table")
    excs = {}
    for e in expected.values():
        x = e.attempts[-1]["exception"] if e.attempts else None
        if x:
            c = excs.setdefault((e.key[0], x["type_name"]), [0, 0])
            c[0 if e.status == "SUCCESSFUL" else 1] += 1
    got = {(r["Task"], r["Exception"]): [r["Successes"], r["Failures"]] for r in graph.make_exception_table(as_table=False)}
    expect_eq(got, excs, "exception table")
    for label, es in tasks.items():
        t = graph.make_task_resource_usage_table(label, include_data_ids=label == "t0")
        want = {e.q["id"].bytes: e.attempts[-1]["usage"] for e in es if e.attempts and e.attempts[-1]["usage"]}
        expect_eq({bytes(r["quantum_id"]) for r in t} if len(t) else set(), set(want), "rows of the resource table")
        for r in t:
            u = want[bytes(r["quantum_id"])]
            for f in ("prep_time", "init_time", "run_time", "run_time_cpu"):
                expect(abs(float(r[f]) - u[f]) < 1e-3, f"{f} in the resource table")
    states = [st_ for n, st_ in enumerate(QuantumAttemptStatus) if (case["states"] >> n) & 1]
    wc = None if case["with_caveats"] is None else QuantumSuccessCaveats(case["with_caveats"])
    out = os.path.join(d, "tables")
    report = graph.make_status_report(states, with_caveats=wc, data_id_table_dir=out if all(e.key[1] for e in expected.values()) else None)
    want = {}
    for e in expected.values():
        if e.status not in {x.name for x in states}:
            continue
        if e.status == "SUCCESSFUL" and wc is not None and not (QuantumSuccessCaveats(e.attempts[-1]["caveats"]) & wc):
            continue
        x = e.attempts[-1]["exception"] if e.attempts else None
        want.setdefault(e.key[0], {}).setdefault(e.status, {}).setdefault(x["type_name"] if x else None, set()).add(e.q["id"])
    got = {l: {a: {b: {q.quantum_id for q in qs} for b, qs in y.items()} for a, y in x.items()} for l, x in report.root.items()}
    expect_eq(got, want, "status report")
    again = type(report).model_validate_json(report.model_dump_json())
    n = sum(len(qs) for x in again.root.values() for y in x.values() for qs in y.values())
    expect_eq(n, sum(len(qs) for x in want.values() for y in x.values() for qs in y.values()), "status report through JSON")
    for x in report.root.values():
        for y in x.values():
            for qs in y.values():
                for q in qs:
                    e = next(e for e in expected.values() if e.q["id"] == q.quantum_id)
                    expect_eq([attempt_dict(a) for a in q.attempts], e.attempts, "attempts in the status report")
                    expect(tuple(q.data_id.values())[:len(e.key[1])] == e.key[1] or set(e.key[1]) <= set(q.data_id.values()), "data ID in the report")
    if os.path.isdir(out):
        import astropy.table

        for l, x in want.items():
            for a, y in x.items():
                for b, qs in y.items():
                    t = astropy.table.Table.read(os.path.join(out, l, a, f"{b or 'UNKNOWN'}.ecsv"))
                    expect_eq(sorted(tuple(map(str, r)) for r in t.iterrows()),
                              sorted(tuple(map(str, e.key[1])) for e in expected.values() if e.q["id"] in qs), "data ID table")
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        graph.make_many_reports(states, print_quantum_table=True, print_exception_table=True, output_format="json")
    j = json.loads(buf.getvalue())
    if expected:
        for r in j["tasks"]:
            for st_ in QuantumAttemptStatus:
                expect_eq(r[st_.title], rows[r["Task"]][st_.title], "JSON report")
            want = {}
            for e in tasks[r["Task"]]:
                c = e.attempts[-1]["caveats"] if e.attempts else None
                if c:
                    s = QuantumSuccessCaveats(c).concise()
                    want[s] = want.get(s, 0) + 1
            got = {}
            for c in r["Caveats"]:
                if c is not None:
                    k = (c["token"] or "") + (c["code"] or "")
                    got[k] = got.get(k, 0) + int(c["count"])
            expect_eq(got, want, "caveats in the JSON report")
    return states


def check(case):
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraph, ProvenanceQuantumGraphReader

    with core.scratch_dir() as d:
        s = synth.Synth(case["graph"])
        keys = sorted(s.quanta)
        expected = {k: Expected(s, k, case["hist"][n % len(case["hist"])], n) for n, k in enumerate(keys)}
        path = os.path.join(d, "p.qg")
        existing = write(case, s, expected, path)
        truth = Truth(s, expected, existing)
        all_q, all_d = set(truth.by_id), set(truth.ds)
        for plan in case["plans"]:
            q, ds, init = set(), set(), False
            with ProvenanceQuantumGraphReader.open(path) as r:
                expect_eq(r.header.graph_type, "provenance", "type of graph")
                for step in plan:
                    if step["op"] == "init":
                        r.read_init_quanta()
                        init = True
                    elif step["op"] == "full":
                        r.read_full_graph()
                        q, ds, init = all_q, all_d, True
                    elif step["op"] == "quanta":
                        ids = pick(all_q, step["mask"])
                        r.read_quanta(None if step["mask"] is None else (i for i in ids) if step["gen"] else ids)
                        q = q | set(ids)
                    else:
                        ids = pick(all_d, step["mask"])
                        r.read_datasets(None if step["mask"] is None else (i for i in ids) if step["gen"] else ids)
                        ds = ds | set(ids)
                    truth.check(r.graph, q, ds, init, q == all_q and ds == all_d and init)
        with ProvenanceQuantumGraphReader.open(path) as r:
            who = pick(all_q, case["fetch"])
            for nodes, back in ((who, {i: i for i in who}), ([truth.by_id[i].log_id for i in who], {truth.by_id[i].log_id: i for i in who})):
                got = r.fetch_logs(nodes)
                expect_eq(set(got), {x for x in nodes if truth.by_id[back[x]].logs}, "quanta with logs")
                for x, logs in got.items():
                    expect_eq([canon_logs(y) for y in logs], [canon_logs(y) for y in truth.by_id[back[x]].logs], "logs")
            for nodes, back in ((who, {i: i for i in who}), ([truth.by_id[i].md_id for i in who], {truth.by_id[i].md_id: i for i in who})):
                got = r.fetch_metadata(nodes)
                expect_eq(set(got), {x for x in nodes if truth.by_id[back[x]].metadata}, "quanta with metadata")
                for x, mds in got.items():
                    expect_eq([canon_md(y) for y in mds], [canon_md(y) for y in truth.by_id[back[x]].metadata], f"metadata ({truth.by_id[back[x]].kind})")
            with must_raise(LookupError, msg="reading an ID that is not in the graph"):
                r.read_quanta([uuid.UUID(int=77)])
            expect(len(r.fetch_packages()) > 0, "no packages")
        a = case["args"]
        want_q, want_d = pick(all_q, a["q"]), pick(all_d, a["d"])
        with ProvenanceQuantumGraph.from_args(path, quanta=None if a["q"] is None else want_q, datasets=None if a["d"] is None else want_d) as (g, b):
            expect(b is None, "a butler appeared")
            truth.check(g, set(want_q), set(want_d), False, False)
        with ProvenanceQuantumGraphReader.open(path) as r:
            r.read_full_graph()
            check_tables(r.graph, case, expected, d)
        kinds = {e.kind for e in expected.values()}
        return {"nontrivial": bool(s.edges) and len(kinds) > 1, "labels": sorted(kinds)}


# --------------------------------------------------------------------------------------------- graphs executed for real


@st.composite
def run_cases(draw):
    passes = []
    for j in range(draw(st.integers(1, 3))):
        passes.append({"acts": draw(wf.action_lists()), "opts": draw(st.sampled_from(["clobber", "skip+clobber", "skip+clobber"])) if j else "none",
                       "fail_fast": draw(st.integers(0, 4)) == 0, "old": draw(st.integers(0, 3)) == 0})
    return {"spec": draw(synth.graph_specs(max_tasks=3, min_tasks=2, max_det=2, init=True, empty_tasks=False)), "passes": passes, "mode": draw(st.sampled_from(["full", "qbb"])),
            "raise_partial": draw(st.booleans()), "mask": draw(st.one_of(st.none(), st.integers(0, 2**12 - 1)))}


def run_attempt_of(md):
    """Which pass some metadata is from."""
    return [] if md is None else sorted(v["attempt"] for v in md.to_dict().values() if isinstance(v, dict) and "attempt" in v)


def lines_of(logs):
    return [] if logs is None else [r.message for r in logs if r.message.startswith("running ")]


def check_run(case):
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphReader

    kinds = set()
    with core.scratch_dir() as d:
        f = wf.Flow(d, case["spec"], mode=case["mode"])
        try:
            f.prepare()
            tries = {k: [] for k in f.s.quanta}
            for n, p in enumerate(case["passes"]):
                acts = {k: dict(a, attempt=n) for k, a in wf.assign(f, p["acts"]).items()}
                for k in f.s.quanta:
                    acts.setdefault(k, {"do": "ok", "attempt": n})
                before = set(f.model)
                graph = f.qg
                if p["old"]:
                    graph = f.qg.to_old_quantum_graph()
                path = os.path.join(d, f"p{n}.qg")
                kw = {"clobber_outputs": "clobber" in p["opts"], "skip_existing": "skip" in p["opts"]}
                try:
                    err = f.execute(acts, provenance=path, fail_fast=p["fail_fast"], raise_partial=case["raise_partial"], graph=graph, **kw)
                except SystemExit:
                    return {"nontrivial": False, "labels": ["stopped"]}
                reports = {r.quantumId: r for r in f.report.quantaReports}
                todo = {k for k, q in f.s.quanta.items() if q["id"] in reports} if err is not None and p["fail_fast"] else None
                result = f.simulate(acts, raise_partial=case["raise_partial"], skip="skip" in p["opts"], todo=todo)
                expect_eq(err is not None, any(v == "failed" for v in result.values()), "failure of the run")
                logged = {}
                for k, status in result.items():
                    kinds.add(status)
                    if status in ("failed", "success"):
                        (log,) = f.s.quanta[k]["out"]["_log"]
                        if log not in before:
                            tries[k].clear()
                        tries[k].append((n, acts[k]["do"], status))
                    if status != "blocked":
                        logged[k] = list(tries[k])
                read_run(case, f, path, result, logged, before, ProvenanceQuantumGraphReader)
                if n + 1 < len(case["passes"]):
                    expect_eq(f.observe(), {k: v for k, v in {**f.observe(), **f.model}.items() if k in f.model or k[0] == "packages" or k[0].endswith("_config")},
                              "stored datasets")
        finally:
            f.close()
    return {"nontrivial": len(kinds) > 1 and bool(f.s.edges), "labels": sorted(kinds)}


def read_run(case, f, path, result, logged, before, reader):
    ids = {k: f.s.quanta[k]["id"] for k in result}
    with reader.open(path) as r:
        if case["mask"] is None:
            r.read_full_graph()
        else:
            r.read_quanta(pick(ids.values(), case["mask"]))
            r.read_datasets(pick([f.s.datasets[x]["id"] for k in result for x in f.outputs_of(k)], case["mask"]))
        bi = r.graph.bipartite_xgraph
        got = {q for m in r.graph.quanta_by_task.values() for q in m.values()}
        want = set(ids.values()) if case["mask"] is None else set(pick(ids.values(), case["mask"]))
        expect_eq(got, want, "quanta recorded")
        for k, status in result.items():
            if ids[k] not in want:
                continue
            node = bi.nodes[ids[k]]
            if status == "blocked":
                expect_eq((node["status"].name, list(node["attempts"])), ("BLOCKED", []), f"status of {k}")
                continue
            tries = logged[k]
            final = "SUCCESSFUL" if tries[-1][2] == "success" else "FAILED"
            expect_eq(node["status"].name, final, f"status of {k} ({status}; {tries})")
            expect_eq([a.attempt for a in node["attempts"]], list(range(len(tries))), f"attempts of {k} ({status}; {tries})")
            last = node["attempts"][-1]
            expect_eq(last.status.name, final, f"status of the last attempt of {k}")
            if final == "SUCCESSFUL":
                expect_eq(node["caveats"], f.caveats[k], f"caveats of {k} ({status}; {tries})")
                expect_eq(last.exception is not None, tries[-1][1] == "partial", f"exception of {k} ({status}; {tries}): {last.exception}")
            else:
                expect(last.exception is not None, f"no exception for the failed quantum {k} ({tries})")
            for a, t in zip(node["attempts"], tries):
                if t[2] == "failed":
                    expect_eq(a.status.name, "FAILED", f"status of attempt {a.attempt} of {k}")
                    expect(a.exception is not None, f"no exception for attempt {a.attempt} of {k} ({tries})")
        (logs, mds) = r.fetch_logs(sorted(want)), r.fetch_metadata(sorted(want))
        for k, status in result.items():
            if ids[k] not in want:
                continue
            if status == "blocked":
                expect(ids[k] not in logs and ids[k] not in mds, f"logs or metadata of the blocked quantum {k}")
                continue
            tries = logged[k]
            expect_eq([lines_of(x) for x in logs[ids[k]]], [[f"running {f.qkey(k)} line 0 attempt {t[0]}"] for t in tries], f"logs of {k} ({status}; {tries})")
            # the metadata of an earlier success that was clobbered is gone
            expect_eq([run_attempt_of(x) for x in mds[ids[k]]], [[t[0]] if t[2] == "failed" or i == len(tries) - 1 else [] for i, t in enumerate(tries)],
                      f"metadata of {k} ({status}; {tries})")
        for k, status in result.items():
            for x in f.outputs_of(k):
                n = bi.nodes.get(f.s.datasets[x]["id"], {})
                if "produced" not in n or (status == "blocked" and x in before):
                    continue
                expect_eq(n["produced"], x in f.model, f"produced flag of {x} ({status}; {logged.get(k)})")
            if case["mask"] is None:
                q = f.s.quanta[k]
                ins = {f.s.datasets[x]["id"] for ks in q["in"].values() for x in ks}
                outs = {f.s.datasets[x]["id"] for x in f.outputs_of(k)}
                expect_eq((set(bi.predecessors(ids[k])), set(bi.successors(ids[k]))), (ins, outs), f"inputs and outputs of {k}")
        if case["mask"] is None:
            for k in f.overall:
                n = bi.nodes.get(f.s.datasets[k]["id"])
                if n is not None:
                    expect(n["produced"], "an overall input is not marked as existing")


FACETS = [Facet("written", cases, check, quick=4000, thorough=14000, setup=qgs.template),
          Facet("executed", run_cases, check_run, quick=320, thorough=6000, setup=wf.template)]
