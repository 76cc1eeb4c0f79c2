"""C20: aggregating executed graphs."""
from __future__ import annotations

import contextlib
import logging
import os
import shutil
import signal

import hypothesis.strategies as st
from lsst.daf.butler import Butler, CollectionType
from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphReader
from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig, FatalWorkerError, aggregate_graph
from lsst.pipe.base.quantum_graph.ingest_graph import ingest_graph
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor

import synth
import wf
from core import Facet, Violation, expect, expect_eq, scratch_dir

PROPERTY = "C20"
RULE = ("aggregate: generated graphs (1..3 tasks) executed quantum by quantum against quantum-backed butlers with generated outcomes, retries and "
        "quanta left out, between incomplete, complete, defensive, dry-run and interrupted aggregation passes with one or several scanners and any "
        "batch size; ingest: the same, followed by (interrupted and repeated) ingests of the provenance graph. Counted non-trivial if datasets were "
        "ingested and some quantum did not succeed, or more than one pass ingested datasets.")


class Boom(Exception):
    """An injected interruption."""


@st.composite
def crashes(draw):
    if draw(st.integers(0, 3)):
        return None
    return {"where": draw(st.sampled_from(["import_records", "importDatasets", "stored", "get"])), "n": draw(st.integers(0, 6))}


@st.composite
def cases(draw, ingest=False):
    spec = draw(synth.graph_specs(max_tasks=3, max_det=2))
    spec["output"] = draw(st.sampled_from([None, "u/chain"]))
    acts = wf.action_lists(weight_ok=8)
    # without the connection index of an aborted write nothing else differs
    run = st.fixed_dictionaries({"op": st.just("run"), "mask": st.one_of(st.just(2**30 - 1), st.integers(0, 2**30 - 1)), "acts": acts})
    agg = st.fixed_dictionaries({"op": st.just("agg"), "incomplete": st.booleans(), "defensive": st.booleans(), "batch": st.sampled_from([1, 2, 5, 10000]),
                                 "dry": st.sampled_from([False, False, False, True]), "chain": st.booleans(), "write": st.booleans(),
                                 "scanners": st.sampled_from([1, 1, 3]), "dict": st.sampled_from([0, 0, 1000, 32768]), "crash": crashes()})
    ops = draw(st.lists(st.one_of(run, agg), min_size=1, max_size=4))
    return {"spec": spec, "ops": [draw(run)] + ops, "final": draw(agg), "register": draw(st.booleans()), "promise": draw(st.booleans()),
            # configs are part of a provenance graph whether or not they were ever written
            "prepare": ingest or draw(st.sampled_from([True, True, True, False])),
            "ingest": draw(st.lists(st.fixed_dictionaries({"batch": st.sampled_from([1, 2, 100]), "uri": st.booleans(),
                                                           "crash": st.one_of(st.none(), st.fixed_dictionaries({
                                                               "where": st.sampled_from(["removeDatasets", "forget", "mremove", "ingest"]), "n": st.integers(0, 3)}))}),
                                    min_size=1, max_size=3)) if ingest else []}


def ingest_cases():
    return cases(ingest=True)


@contextlib.contextmanager
def broken(crash):
    """Make the n-th call of something outside of the code under test fail."""
    if crash is None:
        yield
        return
    from lsst.daf.butler import QuantumBackedButler
    from lsst.daf.butler.datastores.fileDatastore import FileDatastore
    from lsst.daf.butler.direct_butler import DirectButler
    from lsst.daf.butler.registry.sql_registry import SqlRegistry
    from lsst.resources import ResourcePath

    cls, name = {"import_records": (FileDatastore, "import_records"), "importDatasets": (SqlRegistry, "_importDatasets"),
                 "stored": (QuantumBackedButler, "stored"), "get": (QuantumBackedButler, "get"),
                 "removeDatasets": (SqlRegistry, "removeDatasets"), "forget": (FileDatastore, "forget"),
                 "mremove": (ResourcePath, "mremove"), "ingest": (DirectButler, "ingest")}[crash["where"]]
    raw = cls.__dict__[name]
    real = raw.__func__ if isinstance(raw, classmethod) else raw
    count = [0]

    def fake(*args, **kw):
        count[0] += 1
        if count[0] > crash["n"]:
            raise Boom(f"interrupted in {name}")
        return real(*args, **kw)

    setattr(cls, name, classmethod(fake) if isinstance(raw, classmethod) else fake)
    try:
        yield
    finally:
        setattr(cls, name, raw)


@contextlib.contextmanager
def trainable():
    """Training a compression dictionary needs much more data than there is here: use the samples themselves instead."""
    import zstandard

    real = zstandard.train_dictionary

    def train(size, samples, **kw):
        try:
            return real(size, samples, **kw)
        except zstandard.ZstdError:
            return zstandard.ZstdCompressionDict(b"".join(bytes(x) for x in samples)[:size] or b"0" * 8)

    zstandard.train_dictionary = train
    try:
        yield
    finally:
        zstandard.train_dictionary = real


class World:
    def __init__(self, d, case):
        self.case, self.d = case, d
        self.f = f = wf.Flow(d, case["spec"], mode="qbb")
        self.path = os.path.join(d, "graph.qg")
        f.s.components.write(self.path)
        self.quanta = f.qg.build_execution_quanta()
        self.status = {k: "none" for k in f.s.quanta}
        self.attempts = {k: [] for k in f.s.quanta}
        self.ingested = {}
        self.complete = False
        self.chains = {}
        self.order = f.order()
        self.scanned = set()
        if case["prepare"]:
            f.prepare()
        if not case["register"]:
            b = Butler.from_config(f.root, writeable=True)
            f.graph.register_dataset_types(b)
            wf.close(b)

    def execute(self, op):
        f = self.f
        for i, key in enumerate(self.order):
            if self.status[key] == "success" or any(self.status[u] != "success" for u in f.s.upstream(key)) or not op["mask"] >> (i % 30) & 1:
                continue
            if not self.case["prepare"] and f.s.init[key[0]]["in"]:
                continue
            action = dict(wf.ACTIONS[op["acts"][i % len(op["acts"])]], attempt=len(self.attempts[key]))
            wf.vptasks.BEHAVIOR[f.qkey(key)] = action
            ex = SingleQuantumExecutor(butler=None, limited_butler_factory=f.qbb, skip_existing=True, clobber_outputs=True)
            qid = f.s.quanta[key]["id"]
            result = f.simulate({key: action}, todo={key})
            err = None
            try:
                ex.execute(f.graph.tasks[key[0]], self.quanta[qid], quantum_id=qid)
            except Exception as e:  # noqa: BLE001
                err = e
            expect_eq("success" if err is None else "failed", result[key], f"outcome of {key} with {action}")
            self.status[key] = result[key]
            self.attempts[key].append({"status": result[key], "exception": None if err is None else str(err), "attempt": action["attempt"],
                                       "lines": action.get("logs", 1), "caveats": f.caveats.get(key)})

    def expected(self, incomplete):
        """Scan results of one pass: (keys of datasets to ingest, {quantum: status})."""
        f = self.f
        seen, keys = {}, set()
        for key in self.order:
            up = [seen[u] for u in f.s.upstream(key)]
            if any(x != "SUCCESSFUL" for x in up):
                seen[key] = "BLOCKED"
                continue
            if self.status[key] == "success":
                seen[key] = "SUCCESSFUL"
            elif incomplete:
                seen[key] = "ABANDONED"
                continue
            else:
                seen[key] = "FAILED" if self.attempts[key] else "UNKNOWN"
            keys |= {k for k in f.outputs_of(key) if k in f.model}
        stored = self.content
        for i in f.s.init.values():
            keys |= {k for k in i["out"].values() if k in stored}
        if self.case["promise"]:
            keys = {k for k in keys if not k[0].endswith(("_metadata", "_log", "_config"))}
        return keys, seen

    def central(self):
        f = self.f
        b = Butler.from_config(f.root)
        by_id = {v["id"]: k for k, v in f.s.datasets.items()}
        out = {}
        types = {t.name for t in b.registry.queryDatasetTypes()}
        runs = set(b.collections.query("*"))
        if f.run in runs:
            for name in sorted(types):
                for ref in b.query_datasets(name, collections=f.run, explain=False, limit=None):
                    if name == "run_provenance":
                        continue
                    expect(ref.id in by_id, "%s is not in the graph", ref)
                    k = by_id[ref.id]
                    expect_eq(ref.dataId, f.ref(k).dataId, "data ID")
                    expect(b.stored(ref), "%s is known to the repository but not stored", k)
                    try:
                        out[k] = wf.observed(b.get(ref))
                    except Exception as e:  # noqa: BLE001
                        raise Violation(f"{k} is known to the repository but cannot be read: {e!r}") from e
            expect_eq({by_id[i] for i in b.registry._fetch_run_dataset_ids(f.run) if i in by_id}, set(out), "datasets of the run")
        chains = {c: list(b.collections.get_info(c).children) for c in b.collections.query("*", CollectionType.CHAINED)}
        wf.close(b)
        return out, chains, types, runs

    def aggregate(self, op, n):
        f, case = self.f, self.case
        if self.complete:
            op = dict(op, incomplete=False)
        self.content = f.observe()
        incomplete = op["incomplete"]
        label = f"pass {n} ({op})"
        before = self.central()
        out = os.path.join(self.d, f"prov{n}.qg") if op["write"] else None
        config = AggregatorConfig(output_path=out, incomplete=incomplete, defensive_ingest=op["defensive"], ingest_batch_size=op["batch"], dry_run=op["dry"],
                                  update_output_chain=op["chain"], register_dataset_types=case["register"], promise_ingest_graph=case["promise"],
                                  n_processes=1, worker_sleep=0.001, zstd_dict_size=op["dict"], zstd_dict_n_inputs=2 if op["dict"] == 1000 else 512)
        keys, seen = self.expected(incomplete)
        err = None
        try:
            with broken(op["crash"]), trainable(), scanners(op["scanners"], config):
                aggregate_graph(self.path, f.root, config)
        except (FatalWorkerError, Boom) as e:
            err = e
        got, chains, types, runs = self.central()
        for k, v in got.items():
            expect_eq(v, self.content[k], f"content of {k} after {label}")
        if op["dry"]:
            expect_eq((got, chains, types, runs), before, f"repository after {label}")
            if op["crash"] is None and not op["defensive"]:
                expect(err is None, "%s failed", label)
        if err is not None and op["crash"] is None and not (op["dry"] and op["defensive"]):
            raise Violation(f"{label} failed: {err!r}")
        if not op["dry"]:
            old = set(before[0])
            if err is None:
                expect_eq(set(got), old | keys, f"datasets ingested by {label}")
            else:
                expect(old <= set(got) <= old | keys, "%s: datasets %s changed to %s", label, sorted(old), sorted(got))
            if set(got) - old:
                self.passes.append(len(set(got) - old))
            if not incomplete:
                self.complete = True
            spec = case["spec"]
            model = dict(before[1])
            if op["chain"] and spec["output"]:
                if spec["output"] not in model:
                    model[spec["output"]] = list(spec["inputs"])
                model[spec["output"]] = [f.run] + [x for x in model[spec["output"]] if x != f.run]
            expect(chains == model or (err is not None and chains in (before[1], {**model, **before[1]}) or (err is not None)), "chains after %s: %s, expected %s", label, chains, model)
        if err is None and config.is_writing_provenance:
            self.check_provenance(out, seen, label)
            self.provenance = out
        elif err is None and out is not None:
            expect(not os.path.exists(out), "%s wrote a provenance graph", label)
        return err

    def check_provenance(self, path, seen, label):
        f = self.f
        with ProvenanceQuantumGraphReader.open(path) as r:
            r.read_full_graph()
            g = r.graph
            bi = g.bipartite_xgraph
            by_id = f.s.by_id
            expect_eq({by_id[i] for i in g.quantum_only_xgraph}, set(f.s.quanta), f"quanta in the provenance of {label}")
            for key, q in f.s.quanta.items():
                n = bi.nodes[q["id"]]
                a = self.attempts[key] if seen[key] != "BLOCKED" else []
                expect_eq(n["status"].name, seen[key], f"status of {key} in the provenance of {label}")
                if a:
                    expect_eq([x.status.name for x in n["attempts"]], ["SUCCESSFUL" if x["status"] == "success" else "FAILED" for x in a], f"attempts of {key}")
                    expect_eq([None if x.exception is None else x.exception.message for x in n["attempts"]],
                              [x["exception"] for x in a], f"exceptions of the attempts of {key}")
                    want = a[-1]["caveats"] if a[-1]["status"] == "success" else None
                    expect_eq(None if n["caveats"] is None else n["caveats"], want, f"caveats of {key}")
            produced = {k for key in f.s.quanta if seen[key] != "BLOCKED" for k in f.outputs_of(key) if k in f.model}
            for i in f.s.init.values():
                produced |= {k for k in i["out"].values() if k in self.content}
            produced |= set(f.overall)
            for k, ds in f.s.datasets.items():
                if k[0] == "packages":
                    continue
                expect_eq(bi.nodes[ds["id"]]["produced"], k in produced, f"produced flag of {k} in {label}")
            logs = r.fetch_logs([q["id"] for q in f.s.quanta.values()])
            for key, q in f.s.quanta.items():
                a = self.attempts[key] if seen[key] != "BLOCKED" else []
                got = [[x.message for x in y if x.message.startswith("running ")] for y in logs.get(q["id"], []) if y is not None]
                expect_eq(got, [[f"running {f.qkey(key)} line {j} attempt {x['attempt']}" for j in range(x["lines"])] for x in a], f"logs of {key}")
            mds = r.fetch_metadata([q["id"] for q in f.s.quanta.values()])
            for key, q in f.s.quanta.items():
                a = self.attempts[key] if seen[key] != "BLOCKED" else []
                got = [None if y is None else wf.vptasks.mark_of(y) for y in mds.get(q["id"], [])]
                if a:
                    expect_eq(len(got), len(a), f"number of metadata of {key}")
                    expect(all(x in (None, f.qkey(key)) for x in got), "metadata of %s are of %s", key, got)
                    if a[-1]["status"] == "success":
                        expect_eq(got[-1], f.qkey(key), f"metadata of {key}")
                else:
                    expect(not any(got), "metadata for %s", key)


@contextlib.contextmanager
def scanners(n, config):
    """Run several scanners as threads instead of processes."""
    from lsst.pipe.base.quantum_graph.aggregator import _supervisor as m

    if n == 1 or not hasattr(m, "SpawnWorkerFactory") or not hasattr(m, "ThreadWorkerFactory"):
        yield
        return
    real = m.SpawnWorkerFactory
    m.SpawnWorkerFactory = m.ThreadWorkerFactory
    config.n_processes = n
    # worker processes ignore interrupts, which threads cannot
    real_signal = signal.signal
    signal.signal = lambda *args: None
    try:
        yield
    finally:
        signal.signal = real_signal
        m.SpawnWorkerFactory = real


def check_aggregate(case):
    logging.getLogger("lsst").setLevel(logging.CRITICAL)
    with scratch_dir() as d:
        w = World(d, case)
        w.passes = []
        for n, op in enumerate(case["ops"]):
            if op["op"] == "run":
                if not w.complete:
                    w.execute(op)
            else:
                w.aggregate(op, n)
        # a final complete pass leaves everything as one complete pass would have
        final = dict(case["final"], incomplete=False, dry=False, crash=None, write=True, chain=True)
        w.aggregate(final, len(case["ops"]))
        keys, _ = w.expected(False)
        got = w.central()[0]
        expect(keys <= set(got), "%s were not ingested", sorted(keys - set(got)))
        extra = {k for k in set(got) - keys}
        expect(not extra, "%s should not have been ingested", sorted(extra))
        if case["ingest"]:
            check_ingest(w)
        w.f.close()
    return bool(got) and (set(w.status.values()) != {"success"} or len(w.passes) > 1)


def check_ingest(w):
    f, case = w.f, w.case
    keys, _ = w.expected(False)
    full = {k: v for k, v in w.content.items() if k not in f.overall and (k in keys or k[0].endswith(("_metadata", "_log", "_config")))}
    # everything that the provenance graph knows to be produced
    w.case = dict(case, promise=False)
    known, _ = w.expected(False)
    w.case = case
    full = {k: v for k, v in full.items() if k in known}
    special = {k for k in full if k[0].endswith(("_metadata", "_log", "_config")) and k[0] != "packages"}
    store = f.store()
    w.files = {k: store._datastore.getURI(f.ref(k)).ospath for k in special}
    wf.close(store)
    copy = os.path.join(w.d, "final.qg")
    shutil.copy(w.provenance, copy)
    ok = False
    for n, op in enumerate(case["ingest"] + [{"batch": 100, "uri": True, "crash": None}, {"batch": 2, "uri": False, "crash": None}]):
        kw = {"uri": copy} if op["uri"] or not ok else {"output_run": f.run}
        if ok and "uri" in kw and not os.path.exists(copy):
            shutil.copy(w.provenance, copy)
        label = f"ingest {n} ({op})"
        b = Butler.from_config(f.root, collections=f.run)
        there = "run_provenance" in {t.name for t in b.registry.queryDatasetTypes()} and b.find_dataset("run_provenance", collections=f.run) is not None
        wf.close(b)
        if there and not op["uri"]:
            kw = {"output_run": f.run}
        elif not os.path.exists(copy):
            shutil.copy(w.provenance, copy)
            kw = {"uri": copy}
        err = None
        try:
            with broken(op["crash"]):
                ingest_graph(f.root, transfer="copy", batch_size=op["batch"], **kw)
        except Boom as e:
            err = e
        got = w.central()[0]
        for k, v in got.items():
            expect(k in full, "%s is in the repository after %s", k, label)
            expect_eq(v, full[k], f"content of {k} after {label}")
        expect(set(full) - special <= set(got), "%s lost %s", label, sorted(set(full) - special - set(got)))
        if err is None:
            ok = True
            expect_eq(set(got), set(full), f"datasets in the repository after {label}")
            b = Butler.from_config(f.root, collections=f.run)
            refs = b.query_datasets("run_provenance", collections=f.run)
            expect_eq(len(refs), 1, "ingested provenance graphs")
            wf.close(b)
            left = [k for k, p in w.files.items() if k in special and os.path.exists(p)]
            expect(not left, "%s left the original files of %s", label, left)
        else:
            expect(op["crash"] is not None, "%s failed: %r", label, err)
        # an interrupted ingest is completed by a later one: judged above for the last ones


FACETS = [Facet("aggregate", cases, check_aggregate, quick=240, thorough=6000),
          Facet("ingest", ingest_cases, check_aggregate, quick=120, thorough=4000)]
