"""C21: execution reports and provenance summaries account for every quantum and dataset exactly once."""
from __future__ import annotations

import collections
import datetime
import json
import logging
import os
import shutil

import hypothesis.strategies as st
from lsst.daf.butler import Butler, CollectionType, DatasetRef
from lsst.pipe.base import QuantumSuccessCaveats, TaskMetadata
from lsst.pipe.base.execution_reports import QuantumGraphExecutionReport, lookup_quantum_data_id
from lsst.pipe.base.quantum_provenance_graph import QuantumProvenanceGraph, Summary

import core
import synth
import wf
from core import expect, expect_eq

PROPERTY = "C21"
RULE = "at least two quanta, at least one quantum that did not simply succeed, and (provenance) all five summaries compared"

OK, OK_MISSING, OK_MISSING2, FAILED, FAILED_PARTIAL, NOTHING, NO_LOG, NO_LOG_PARTIAL, STRAY, PARTIAL_ERROR, CAVEAT_ALL = range(11)


@st.composite
def attempts(draw, names=True):
    spec = draw(synth.graph_specs(max_tasks=4, max_det=2, init=False, empty_tasks=False))
    spec["size"]["nd"] = min(spec["size"]["nd"], 4)
    rename = {}
    if names and draw(st.integers(0, 3)) == 0:
        outs = sorted({c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] == "out"})
        for n in draw(st.lists(st.sampled_from(outs), unique=True, min_size=1, max_size=2)):
            rename[n] = n + draw(st.sampled_from(["_metadata", "_log", "_metadata_x", "log"]))
        for t in spec["tasks"]:
            for c in t["conns"]:
                c["name"] = rename.get(c["name"], c["name"])
    n = draw(st.integers(1, 3))
    runs = []
    for j in range(n):
        runs.append({
            "quanta": draw(st.lists(st.integers(0, 2**16 - 1), min_size=4, max_size=4)) if j and draw(st.booleans()) else None,
            "what": draw(st.lists(st.one_of(*[st.just(OK)] * 8, st.integers(0, 10)), min_size=1, max_size=10)),
            "mask": draw(st.integers(0, 2**10 - 1)),
            "drop": draw(st.booleans()) and draw(st.booleans()),
            "shift": draw(st.integers(0, 3)),
        })
    return {"spec": spec, "runs": runs}


@st.composite
def cases(draw):
    case = draw(attempts())
    n = len(case["runs"])
    case["same_run"] = n > 1 and draw(st.integers(0, 5)) == 0
    case["first"] = draw(st.sampled_from([0, 0, 0, 1])) if n > 1 else 0
    case["collections"] = draw(st.one_of(st.none(), st.none(), st.permutations(list(range(n))).map(list),
                                         st.lists(st.integers(0, n), min_size=1, max_size=n + 1, unique=True)))
    case["curse"] = case["collections"] is not None and draw(st.booleans())
    case["where"] = draw(st.booleans()) and draw(st.booleans())
    case["caveats"] = draw(st.sampled_from(["lazy", "lazy", "exhaustive", None]))
    case["qbb"] = draw(st.booleans())
    case["cores"] = draw(st.sampled_from([1, 1, 4]))
    case["logs"] = draw(st.booleans())
    case["lost"] = draw(st.lists(st.integers(0, 40), max_size=2))
    case["file"] = draw(st.integers(0, 3)) == 0
    case["extra"] = draw(st.integers(0, 3)) == 0
    return case


def flags_of(what, k):
    f = QuantumSuccessCaveats.NO_CAVEATS
    if what == OK_MISSING:
        f = QuantumSuccessCaveats.ANY_OUTPUTS_MISSING
    elif what == OK_MISSING2:
        f = QuantumSuccessCaveats.ANY_OUTPUTS_MISSING | QuantumSuccessCaveats.NO_WORK
    elif what == PARTIAL_ERROR:
        f = QuantumSuccessCaveats.ANY_OUTPUTS_MISSING | QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR
    elif what == CAVEAT_ALL:
        f = QuantumSuccessCaveats.ADJUST_QUANTUM_RAISED | QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR
    return f


class World:
    """A repository in which attempts at generated quanta left what they left."""

    def __init__(self, d, case, group=""):
        self.case = case
        self.root = os.path.join(d, "repo")
        shutil.copytree(wf.template(), self.root)
        self.butler = Butler.from_config(self.root, writeable=True)
        self.graphs = []
        self.files = []
        self.dir = d
        self.clock = 0
        self.there = {}
        """run -> {dataset key: what it holds}"""
        self.content = {}

    def attempt(self, spec, r, run, salt):
        """Build a graph for one attempt and write what it leaves."""
        spec = json.loads(json.dumps(spec))
        spec["out_run"] = run
        if r["quanta"] is not None:
            for t, m in zip(spec["tasks"], r["quanta"]):
                t["quanta"] &= m
        consumed = {c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] == "in"}
        if r["drop"]:
            for t in spec["tasks"]:
                for c in t["conns"]:
                    if c["kind"] == "out" and c["name"] not in consumed:
                        c["mask"] &= 0b1010101010101010
        spec["tasks"] = [t for t in spec["tasks"] if any(synth.bit(t["quanta"], n) for n, _ in enumerate(synth.values(t["dk"], spec["size"])))]
        if not spec["tasks"]:
            return None
        self.clock += 1
        time = datetime.datetime(2026, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(hours=self.clock)
        s = synth.Synth(spec, salt=salt)
        s.components.header.timestamp = time
        legacy = s.components.assemble().to_old_quantum_graph()
        legacy._metadata["time"] = str(time)
        s.graph.register_dataset_types(self.butler)
        self.butler.collections.register(run, CollectionType.RUN)
        types = {n.name: n.dataset_type for n in s.graph.dataset_types.values()}
        there = self.there.setdefault(run, {})
        with self.butler.transaction():
            for i, key in enumerate(sorted(s.quanta)):
                what = r["what"][(i + r["shift"]) % len(r["what"])]
                q = s.quanta[key]
                (md,) = q["out"]["_metadata"]
                (log,) = q["out"]["_log"]
                regular = sorted(k for c, ks in q["out"].items() if c not in ("_metadata", "_log") for k in ks)
                some = [k for n, k in enumerate(regular) if synth.bit(r["mask"], n)]
                write = {OK: [md, log, *regular], OK_MISSING: [md, log, *some], OK_MISSING2: [md, log], FAILED: [log], FAILED_PARTIAL: [log, *some],
                         NOTHING: [], NO_LOG: [md, *regular], NO_LOG_PARTIAL: [md, *some], STRAY: some, PARTIAL_ERROR: [md, log, *some],
                         CAVEAT_ALL: [md, log, *regular]}[what]
                for k in write:
                    if k in there:
                        continue
                    there[k] = s.datasets[k]["id"]
                    if k == md:
                        obj = TaskMetadata()
                        obj["quantum"] = TaskMetadata()
                        flags = flags_of(what, key)
                        obj["quantum"]["caveats"] = flags.value
                        exc = None
                        if flags & QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR:
                            exc = {"type_name": f"some.mod.Error{i % 2}", "message": f"failed {key} in {run}", "metadata": {"x": i, "y": "z"}}
                            obj[key[0]] = TaskMetadata.from_dict(
                                {"failure": {"type": exc["type_name"], "message": exc["message"], "metadata": {**exc["metadata"], "nested": {"a": 1}}}})
                        self.content[run, k] = (flags, exc)
                    elif k == log:
                        obj = records(key, run, bad=md not in write)
                        self.content[run, k] = [m for lvl, m in messages(key, run, md not in write) if lvl >= logging.ERROR]
                    else:
                        obj = {"k": str(k), "run": run}
                    ref = DatasetRef(types[k[0]], synth.data_id(s.datasets[k]["dk"], k[1]), run=run, id=s.datasets[k]["id"])
                    if types[k[0]].storageClass_name == "TaskMetadata" and k != md:
                        obj = TaskMetadata()
                    self.butler.put(obj, ref)
        g = {"synth": s, "run": run, "legacy": legacy}
        self.graphs.append(g)
        return g

    def lose(self, g, n):
        """Remove the file of a log dataset, leaving it registered."""
        logs = sorted(k for k in self.there[g["run"]] if (g["run"], k) in self.content and isinstance(self.content[g["run"], k], list))
        if not logs:
            return
        k = logs[n % len(logs)]
        s = g["synth"]
        if k not in s.datasets:
            return
        ref = self.butler.get_dataset(self.there[g["run"]][k])
        os.remove(self.butler.getURI(ref).ospath)
        self.content[g["run"], k] = None


def messages(key, run, bad):
    out = [(logging.INFO, f"starting {key} {run}")]
    if bad:
        out += [(logging.ERROR, f"error one {key} {run}"), (logging.WARNING, "a warning"), (logging.CRITICAL, f"error two {key} {run}")]
    return out


def records(key, run, bad):
    from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords

    return ButlerLogRecords.from_records([ButlerLogRecord.from_record(logging.LogRecord("x", lvl, "f", 1, "%s", (m,), None))
                                          for lvl, m in messages(key, run, bad)])


# ------------------------------------------------------------------------------------------------ the reference model


class Model:
    """Statuses by the documented rules, from what exists."""

    def __init__(self, world, graphs, *, visible, curse, caveats):
        self.quanta = {}
        """key -> dict(status, recovered, runs={run: status}, caveats, ...)"""
        self.datasets = {}
        """key -> dict(runs={run: produced}, producer)"""
        for g in graphs:
            s, run = g["synth"], g["run"]
            there = world.there.get(run, {})
            status = {}
            for key in order(s):
                q = s.quanta[key]
                (md,) = q["out"]["_metadata"]
                (log,) = q["out"]["_log"]
                for ks in q["out"].values():
                    for k in ks:
                        self.datasets.setdefault(k, {"runs": {}, "producer": key, "dk": s.datasets[k]["dk"], "log": k == log})["runs"][run] = k in there
                if md in there:
                    st_ = "SUCCESSFUL" if log in there else "LOGS_MISSING"
                elif log in there:
                    st_ = "FAILED"
                elif any(status[u] in ("FAILED", "BLOCKED") for u in s.upstream(key)):
                    st_ = "BLOCKED"
                else:
                    st_ = "METADATA_MISSING"
                status[key] = st_
                info = self.quanta.setdefault(key, {"status": "UNKNOWN", "recovered": False, "runs": {}, "read": {}, "ids": {}, "md": md, "log": log})
                old = info["status"]
                info["runs"].pop(run, None)
                info["runs"][run] = st_
                info["ids"][run] = q["id"]
                info["read"].pop(run, None)
                if st_ == "SUCCESSFUL" and caveats is not None:
                    complete = all(x["runs"].get(run, True) for x in self.datasets.values() if x["producer"] == key)
                    if caveats == "exhaustive" or not complete:
                        info["read"][run] = world.content[run, md]
                if old == "WONKY":
                    new = "WONKY"
                elif st_ == "SUCCESSFUL":
                    new = "SUCCESSFUL"
                    info["recovered"] |= old not in ("SUCCESSFUL", "UNKNOWN")
                elif st_ == "LOGS_MISSING" or old == "SUCCESSFUL":
                    new = "WONKY"
                elif st_ == "BLOCKED":
                    new = "BLOCKED" if old == "UNKNOWN" else old
                else:
                    new = {"METADATA_MISSING": "UNKNOWN", "FAILED": "FAILED"}[st_]
                info["status"] = new
        for k, ds in self.datasets.items():
            ds["visible"] = visible(k)
            good = self.quanta[ds["producer"]]["status"] == "SUCCESSFUL"
            if good:
                ds["status"] = "VISIBLE" if ds["visible"] else ("SHADOWED" if any(ds["runs"].values()) else "PREDICTED_ONLY")
            elif ds["visible"] and not (ds["log"] and not curse):
                ds["status"] = "CURSED"
            else:
                ds["status"] = "UNSUCCESSFUL"
        for key, info in self.quanta.items():
            if len({ds["visible"] for ds in self.datasets.values() if ds["producer"] == key and ds["visible"]}) > 1:
                info["status"] = "WONKY"

    def final(self, key):
        for run, s in reversed(self.quanta[key]["runs"].items()):
            if s not in ("METADATA_MISSING", "BLOCKED"):
                return run
        return None


def order(s):
    import networkx

    g = networkx.DiGraph()
    g.add_nodes_from(sorted(s.quanta))
    g.add_edges_from(sorted(s.edges))
    return list(networkx.topological_sort(g))


def data_id(dk, v):
    return dict(zip(synth.DIMS[dk], v))


def full_data_id(dk, v):
    return dict(synth.data_id(dk, v).mapping)


def srt(xs):
    return sorted(xs, key=lambda x: json.dumps(x, sort_keys=True, default=str))


def dump(summary):
    """Order-independent form of a summary."""
    d = summary.model_dump(mode="json")
    for t in d["tasks"].values():
        for k in ("failed_quanta", "recovered_quanta", "wonky_quanta"):
            t[k] = srt(t[k])
        t["caveats"] = {c: srt(v) for c, v in t["caveats"].items()}
        t["exceptions"] = {c: srt(v) for c, v in t["exceptions"].items()}
    for t in d["datasets"].values():
        for k in ("cursed_datasets", "unsuccessful_datasets"):
            t[k] = srt(t[k])
    return d


def compare(world, model, qpg, summary, graphs, *, with_logs):
    dk_of = {key: g["synth"].quanta[key]["dk"] for g in graphs for key in g["synth"].quanta}
    # the graph itself
    expect_eq({(q.task_label, q.data_id_values) for qs in qpg.quanta.values() for q in qs}, set(model.quanta), "quanta known")
    expect_eq({(q.dataset_type_name, q.data_id_values) for qs in qpg.datasets.values() for q in qs}, set(model.datasets), "datasets known")
    for qs in qpg.quanta.values():
        for q in qs:
            info, m = qpg.get_quantum_info(q), model.quanta[q.task_label, q.data_id_values]
            expect_eq({r: x.status.name for r, x in info["runs"].items()}, m["runs"], f"run status of {q}")
            expect_eq(info["status"].name, m["status"], f"status of {q}")
            expect_eq({r: x.id for r, x in info["runs"].items()}, m["ids"], f"quantum IDs of {q}")
            expect_eq(info["recovered"], m["recovered"], f"recovered flag of {q}")
            expect_eq({r: x.caveats for r, x in info["runs"].items() if x.caveats is not None}, {r: c[0] for r, c in m["read"].items()},
                      f"caveats of {q}")
            expect_eq({r: x.exception.model_dump() for r, x in info["runs"].items() if x.exception is not None},
                      {r: c[1] for r, c in m["read"].items() if c[1]}, f"exceptions of {q}")
    for qs in qpg.datasets.values():
        for q in qs:
            info, m = qpg.get_dataset_info(q), model.datasets[q.dataset_type_name, q.data_id_values]
            expect_eq({r: x.produced for r, x in info["runs"].items()}, m["runs"], f"existence of {q}")
            expect_eq({r for r, x in info["runs"].items() if x.visible}, {m["visible"]} - {None}, f"run from which {q} is visible")
            expect_eq(info["status"].name, m["status"], f"status of {q}")
            p = qpg.get_producer_of(q)
            expect_eq((p.task_label, p.data_id_values), m["producer"], f"producer of {q}")
    # the summary
    expect_eq(set(summary.tasks), {k[0] for k in model.quanta}, "tasks summarised")
    qt = {r["Task"]: r for r in summary.make_quantum_table()}
    bad_tables = summary.make_bad_quantum_tables()
    exc_table = {(r["Task"], r["Exception"]): r["Count"] for r in summary.make_exception_table()}
    exc_expected = {}
    for label, t in summary.tasks.items():
        mine = {k: q for k, q in model.quanta.items() if k[0] == label}
        n = collections.Counter(q["status"] for q in mine.values())
        got = {"SUCCESSFUL": t.n_successful, "BLOCKED": t.n_blocked, "UNKNOWN": t.n_unknown, "FAILED": t.n_failed, "WONKY": t.n_wonky}
        expect_eq({s: c for s, c in got.items() if c}, dict(n), f"quanta of {label} by status")
        expect_eq(t.n_expected, len(mine), f"expected quanta of {label}")
        expect_eq(sum(got.values()), t.n_expected, f"total quanta of {label}")
        for status, listed in (("FAILED", t.failed_quanta), ("WONKY", t.wonky_quanta)):
            expect_eq(srt([{"d": u.data_id, "r": u.runs} for u in listed]),
                      srt([{"d": data_id(dk_of[k], k[1]), "r": q["runs"]} for k, q in mine.items() if q["status"] == status]),
                      f"{status} quanta of {label}")
        ok = {k: q for k, q in mine.items() if q["status"] == "SUCCESSFUL"}
        expect_eq(srt(t.recovered_quanta), srt([data_id(dk_of[k], k[1]) for k, q in ok.items() if q["recovered"]]), f"recovered quanta of {label}")
        caveats, excs = {}, {}
        for k, q in ok.items():
            run = model.final(k)
            if run in q["read"] and q["read"][run][0]:
                flags, exc = q["read"][run]
                caveats.setdefault(flags.concise(), []).append(data_id(dk_of[k], k[1]))
                if exc is not None:
                    excs.setdefault(exc["type_name"], []).append(
                        {"quantum_id": q["ids"][run], "data_id": data_id(dk_of[k], k[1]), "run": run, "exception": exc})
        expect_eq({c: srt(v) for c, v in t.caveats.items()}, {c: srt(v) for c, v in caveats.items()}, f"caveats of {label}")
        expect_eq({c: srt([x.model_dump() for x in v]) for c, v in t.exceptions.items()}, {c: srt(v) for c, v in excs.items()},
                  f"exceptions of {label}")
        exc_expected.update({(label, c): len(v) for c, v in excs.items()})
        for u in t.failed_quanta:
            (k,) = [k for k in mine if data_id(dk_of[k], k[1]) == u.data_id]
            if not with_logs:
                expect_eq(u.messages, [], "messages without reading logs")
                continue
            wanted, i = list(u.messages), 0
            for run in mine[k]["runs"]:
                c = world.content.get((run, mine[k]["log"]))
                if c is None:
                    expect(i < len(wanted) and "Logs" in wanted[i] and repr(run) in wanted[i], f"unavailable log of {k} in {run}: {wanted}")
                    i += 1
                else:
                    expect_eq(wanted[i: i + len(c)], c, f"messages of {k} in {run}")
                    i += len(c)
            expect_eq(i, len(wanted), f"number of messages of {k}: {wanted}")
        row = qt[label]
        expect_eq([int(row[c]) for c in ("Unknown", "Successful", "Blocked", "Failed", "Wonky", "TOTAL", "EXPECTED")],
                  [n["UNKNOWN"], n["SUCCESSFUL"], n["BLOCKED"], n["FAILED"], n["WONKY"], len(mine), len(mine)], f"table row of {label}")
        expect_eq(row["Caveats"], "(multiple)" if len(caveats) > 1 else "".join(f"{c}({len(v)})" for c, v in caveats.items()), "caveats column")
        rows = n["FAILED"] + n["WONKY"] + sum(map(len, excs.values()))
        expect_eq(len(bad_tables[label]) if label in bad_tables else 0, rows, f"rows of the table of bad quanta of {label}")
        if rows:
            expect_eq(collections.Counter(map(str, bad_tables[label]["Status(Caveats)"])),
                      collections.Counter({s: c for s, c in (("FAILED", n["FAILED"]), ("WONKY", n["WONKY"]),
                                                             ("SUCCESSFUL(P)", sum(map(len, excs.values())))) if c}), "statuses of bad quanta")
    expect_eq(exc_table, exc_expected, "table of exceptions")
    expect_eq(set(summary.datasets), {k[0] for k in model.datasets}, "dataset types summarised")
    dt = {r["Dataset"]: r for r in summary.make_dataset_table()}
    bad = summary.make_bad_dataset_tables()
    for name, t in summary.datasets.items():
        mine = {k: d for k, d in model.datasets.items() if k[0] == name}
        n = collections.Counter(d["status"] for d in mine.values())
        got = {"VISIBLE": t.n_visible, "SHADOWED": t.n_shadowed, "PREDICTED_ONLY": t.n_predicted_only, "UNSUCCESSFUL": t.n_unsuccessful,
               "CURSED": t.n_cursed}
        expect_eq({s: c for s, c in got.items() if c}, dict(n), f"datasets of type {name} by status")
        expect_eq(t.n_expected, len(mine), f"expected datasets of type {name}")
        expect_eq(t.producer, next(iter(mine.values()))["producer"][0], f"producer of {name}")
        expect_eq(srt([{a: b for a, b in u.items() if a != "band"} for u in t.unsuccessful_datasets]),
                  srt([data_id(d["dk"], k[1]) for k, d in mine.items() if d["status"] == "UNSUCCESSFUL"]), f"unsuccessful datasets of type {name}")
        expect_eq(srt([{"p": c.producer_data_id, "d": c.data_id, "r": c.runs_produced, "v": c.run_visible} for c in t.cursed_datasets]),
                  srt([{"p": data_id(dk_of[d["producer"]], d["producer"][1]), "d": data_id(d["dk"], k[1]), "r": d["runs"], "v": d["visible"]}
                       for k, d in mine.items() if d["status"] == "CURSED"]), f"cursed datasets of type {name}")
        expect_eq([int(dt[name][c]) for c in ("Visible", "Shadowed", "Predicted Only", "Unsuccessful", "Cursed", "TOTAL", "EXPECTED")],
                  [n["VISIBLE"], n["SHADOWED"], n["PREDICTED_ONLY"], n["UNSUCCESSFUL"], n["CURSED"], len(mine), len(mine)], f"table row of {name}")
        # (the existing tests require that datasets that are merely unsuccessful have no rows)
        rows = collections.Counter(map(str, bad[name]["Status"])) if name in bad else collections.Counter()
        expect_eq(rows["CURSED"], n["CURSED"], f"table of bad datasets of type {name}")
    expect_eq(dump(Summary.model_validate_json(summary.model_dump_json())), dump(summary), "summary through JSON")


def visibility(world, where, colls):
    def visible(k):
        if where and k[1][0] != "I0":
            return None
        for run in colls:
            if k in world.there.get(run, {}):
                return run
        return None

    return visible


def execution_report(world, g, do_logs):
    """The per-graph execution report."""
    s, run = g["synth"], g["run"]
    ids = set(world.there[run].values())
    rep = QuantumGraphExecutionReport.make_reports(world.butler, g["legacy"])
    expect_eq(set(rep.tasks), {k[0] for k in s.quanta}, "tasks reported")
    bad, n_out = {}, {}
    want = {}
    for key in order(s):
        q = s.quanta[key]
        (md,) = q["out"]["_metadata"]
        if s.datasets[md]["id"] in ids:
            bad[key] = "ok"
        else:
            bad[key] = "blocked" if any(bad[u] != "ok" for u in s.upstream(key)) else "failed"
        for c, ks in q["out"].items():
            if c in ("_metadata", "_log"):
                continue
            for k in ks:
                where = want.setdefault(key[0], {}).setdefault(k[0], {"produced": 0, "failed": set(), "blocked": set(), "not_produced": set(), "n": 0})
                where["n"] += 1
                i = s.datasets[k]["id"]
                if i in ids:
                    where["produced"] += 1
                else:
                    where[{"ok": "not_produced"}.get(bad[key], bad[key])].add(i)
    for label, t in rep.tasks.items():
        mine = {k: q for k, q in s.quanta.items() if k[0] == label}
        expect_eq(set(t.failed), {q["id"] for k, q in mine.items() if bad[k] == "failed"}, f"failed quanta of {label}")
        expect_eq(set(t.blocked), {q["id"] for k, q in mine.items() if bad[k] == "blocked"}, f"blocked quanta of {label}")
        expect_eq(t.n_succeeded, sum(bad[k] == "ok" for k in mine), f"quanta of {label} that succeeded")
        expect_eq(t.n_expected, len(mine), f"expected quanta of {label}")
        expect_eq({n: {"produced": d.n_produced, "failed": {r.id for r in d.failed}, "blocked": {r.id for r in d.blocked},
                       "not_produced": {r.id for r in d.not_produced}, "n": d.n_expected} for n, d in t.output_datasets.items()},
                  want.get(label, {}), f"outputs of {label}")
    d = rep.to_summary_dict(world.butler, do_store_logs=do_logs)
    h = rep.to_summary_dict(world.butler, do_store_logs=do_logs, human_readable=True)
    for label, t in d.items():
        mine = {str(q["id"]): (k, q) for k, q in s.quanta.items() if k[0] == label and bad[k] == "failed"}
        expect_eq(set(t["failed_quanta"]), set(mine), f"failed quanta in the summary of {label}")
        for i, got in t["failed_quanta"].items():
            k, q = mine[i]
            (log,) = q["out"]["_log"]
            expect_eq(got["data_id"], data_id(q["dk"], k[1]), "data ID of a failed quantum")
            if do_logs:
                there = s.datasets[log]["id"] in ids
                want_err = world.content[run, log] if there else None
                expect_eq(got["error"] or None, want_err or None, f"errors of {k}")
        expect_eq(srt(h[label]["failed_quanta"]), srt([data_id(q["dk"], k[1]) for k, q in mine.values()]), "failed data IDs")
        expect_eq([t["n_quanta_blocked"], t["n_succeeded"], t["n_expected"]],
                  [rep.tasks[label].__dict__["blocked"].__len__(), rep.tasks[label].n_succeeded, rep.tasks[label].n_expected], f"counts of {label}")
        expect_eq({n: o["produced"] for n, o in t["outputs"].items()}, {n: o["produced"] for n, o in want.get(label, {}).items()},
                  "outputs in the summary")


def check(case):
    with core.scratch_dir() as d:
        w = World(d, case)
        spec = case["spec"]
        for j, r in enumerate(case["runs"]):
            run = "u/run0" if case["same_run"] else f"u/run{j}"
            w.attempt(spec, r, run, "a" if case["same_run"] else f"a{j}")
        if not w.graphs:
            return False
        for n in case["lost"]:
            w.lose(w.graphs[n % len(w.graphs)], n)
        graphs = w.graphs[case["first"]:] or w.graphs
        runs = list(dict.fromkeys(g["run"] for g in graphs))
        every = list(dict.fromkeys(g["run"] for g in w.graphs))
        if case["extra"]:
            # unrelated datasets of the same types and data IDs, in a run that no graph writes to
            w.butler.collections.register("u/other", CollectionType.RUN)
            there = w.there["u/other"] = {}
            s = graphs[0]["synth"]
            for k in sorted(k for k, v in s.datasets.items() if v["producer"] and v["producer"][1] is not None and k[0] in s.graph.dataset_types)[:3]:
                t = s.graph.dataset_types[k[0]].dataset_type
                obj = {"DD": 1}
                if t.storageClass_name == "TaskMetadata":
                    obj = TaskMetadata()
                elif t.storageClass_name == "ButlerLogRecords":
                    obj = records(k, "other", False)
                ref = w.butler.put(obj, DatasetRef(t, synth.data_id(s.datasets[k]["dk"], k[1]), run="u/other"))
                there[k] = ref.id
        if case["collections"] is None:
            colls, arg = list(reversed(runs)), None
        else:
            pool = every + ["u/other"] if case["extra"] else every
            colls = list(dict.fromkeys(pool[i % len(pool)] for i in case["collections"]))
            w.butler.collections.register("chain", CollectionType.CHAINED)
            w.butler.collections.redefine_chain("chain", colls)
            arg = ["chain"]
        where = case["where"] and all(ds["dk"] != "e" for g in graphs for ds in g["synth"].datasets.values()
                                      if ds["producer"] and ds["producer"][1] is not None and ds["producer"][0])
        vis = visibility(w, where, colls)
        given = runs

        def visible(k):
            # runs of no graph are not attempts: what they show is not an output of these quanta
            r = vis(k)
            return r if r is not None and r in model_runs(k) else None

        def model_runs(k):
            return {g["run"] for g in graphs if k in g["synth"].datasets and g["synth"].datasets[k]["producer"]}

        model = Model(w, graphs, visible=visible, curse=case["curse"], caveats=case["caveats"])
        qgs_ = []
        for n, g in enumerate(graphs):
            if case["file"]:
                path = os.path.join(d, f"g{n}.qgraph")
                g["legacy"].saveUri(path)
                g["path"] = path
                qgs_.append(path)
            else:
                qgs_.append(g["legacy"])
        qpg = QuantumProvenanceGraph(w.butler, qgs_, collections=arg, where="instrument = 'I0'" if where else "", curse_failed_logs=case["curse"],
                                     read_caveats=case["caveats"], use_qbb=case["qbb"], n_cores=case["cores"])
        summary = qpg.to_summary(w.butler, do_store_logs=case["logs"], n_cores=case["cores"])
        compare(w, model, qpg, summary, graphs, with_logs=case["logs"])
        for g in graphs:
            execution_report(w, g, case["logs"])
            if case["file"]:
                keys = sorted(g["synth"].quanta)[::2]
                got = lookup_quantum_data_id(g["path"], [g["synth"].quanta[k]["id"] for k in keys])
                expect_eq([tuple(x.required_values) for x in got], [k[1] for k in keys], "data IDs looked up by quantum ID")
        wf.close(w.butler)
        return len(model.quanta) > 1 and any(q["status"] != "SUCCESSFUL" or q["recovered"] for q in model.quanta.values())


# ------------------------------------------------------------------------------------------------ disjoint groups


@st.composite
def group_cases(draw):
    return {"a": draw(attempts(names=False)), "split": draw(st.lists(st.integers(0, 2**16 - 1), min_size=4, max_size=4)),
            "other": draw(st.lists(st.lists(st.one_of(*[st.just(OK)] * 4, st.integers(0, 10)), min_size=1, max_size=6), min_size=3, max_size=3)),
            "interleave": draw(st.booleans()), "three": draw(st.booleans())}


def check_groups(case):
    with core.scratch_dir() as d:
        w = World(d, case)
        spec, split = case["a"]["spec"], case["split"]
        groups = [[], []]
        plans = []
        for j, r in enumerate(case["a"]["runs"]):
            for g in (0, 1):
                r2 = dict(r, what=r["what"] if g == 0 else case["other"][j])
                base = r["quanta"] or [2**16 - 1] * 4
                r2["quanta"] = [b & (m if g == 0 else ~m & (2**16 - 1)) for b, m in zip(base, split)]
                plans.append((j if case["interleave"] else g * 10 + j, g, j, r2))
        for _, g, j, r2 in sorted(plans, key=lambda p: p[:3]):
            x = w.attempt(spec, r2, f"u/g{g}/run{j}", f"g{g}a{j}")
            if x is not None:
                groups[g].append(x)
        if not groups[0] or not groups[1]:
            return False

        def summarize(graphs):
            return QuantumProvenanceGraph(w.butler, [g["legacy"] for g in graphs], use_qbb=True, read_caveats="exhaustive").to_summary(w.butler)

        parts = [summarize(g) for g in groups]
        before = [p.model_dump_json() for p in parts]
        whole = summarize([g for g in w.graphs])
        merged = Summary.aggregate(parts)
        expect_eq(dump(merged), dump(whole), "merged summaries of disjoint groups against the summary of the union")
        expect_eq(dump(Summary.aggregate(list(reversed(parts)))), dump(whole), "merged in the other order")
        expect_eq(dump(Summary.aggregate([Summary.aggregate(parts[:1]), Summary(), Summary.aggregate(parts[1:])])), dump(whole), "merged in steps")
        expect_eq([p.model_dump_json() for p in parts], before, "summaries that were merged")
        for t in merged.tasks.values():
            expect_eq(t.n_successful + t.n_blocked + t.n_unknown + t.n_failed + t.n_wonky, t.n_expected, "total of a merged summary")
        for t in merged.datasets.values():
            expect_eq(t.n_visible + t.n_shadowed + t.n_predicted_only + t.n_unsuccessful + t.n_cursed, t.n_expected, "total of a merged summary")
        wf.close(w.butler)
        return any(t.n_expected != t.n_successful for t in merged.tasks.values())


FACETS = [core.Facet("provenance", cases, check, quick=240, thorough=4000),
          core.Facet("groups", group_cases, check_groups, quick=80, thorough=1500)]
