"""C12: predicted quantum graphs survive being written and (partially) read."""
from __future__ import annotations

import copy
import json
import os
import uuid
import warnings
import zipfile

import hypothesis.strategies as st

import core
import qgs
import synth
from core import Facet, expect, expect_eq, must_raise

LEVEL = "exploration"
RULE = ("predicted graphs built from generated pipelines, repositories with stored inputs (so that datastore records are attached) "
        "and random headers, followed by 2-6 generated I/O steps: writing with and without compression dictionary at several "
        "levels, full reads, subset reads in any order with small page sizes, incremental reads through one reader, rewriting the "
        "output run, version-0 files, saving partially read graphs; non-trivial if the graph has at least two quanta")


METADATA = st.dictionaries(st.sampled_from(["a", "k 1", "é", "data_query"]),
                           st.one_of(st.integers(-10**12, 10**12), st.text(max_size=5).filter(lambda s: s.isprintable()), st.none(),
                                     st.lists(st.integers(0, 9), max_size=3)), max_size=3)
STEP = st.one_of(
    st.fixed_dictionaries({"op": st.just("write"), "level": st.sampled_from([1, 3, 10, 15]), "dict_n": st.sampled_from([0, 1, 4, 8, 512]),
                           "dict_size": st.sampled_from([0, 256, 1024, 32768])}),
    st.fixed_dictionaries({"op": st.just("read_all"), "page": st.sampled_from([24, 64, 200, 5000, None])}),
    st.fixed_dictionaries({"op": st.just("subset"), "page": st.sampled_from([24, 64, 200, 5000]), "mask": st.integers(0, 2**16 - 1),
                           "rot": st.integers(0, 20), "dup": st.booleans(), "unknown": st.integers(0, 7).map(lambda i: i == 0),
                           "gen": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("reader"), "page": st.sampled_from([24, 100, 5000]), "rewrite": st.booleans(),
                           "steps": st.lists(st.one_of(st.sampled_from(["thin", "init", "dims", "all", "exec_all"]),
                                                       st.integers(0, 2**16 - 1)), min_size=1, max_size=5)}),
    st.fixed_dictionaries({"op": st.just("rename"), "to": st.sampled_from(["new/run", "out2", "in1", "u/é/run"])}),
    st.fixed_dictionaries({"op": st.just("v0"), "page": st.sampled_from([24, 100, 5000])}),
)


@st.composite
def cases(draw):
    spec = draw(qgs.pipeline_specs(worlds=("obs", "obs", "sky", "sky", "pixv"), scalar_errors=False))
    return {"spec": spec, "exist": draw(qgs.existence(spec)), "collections": list(draw(st.sampled_from(qgs.COLLECTION_CHOICES))),
            "metadata": draw(METADATA), "output": draw(st.sampled_from([None, "u/chain"])), "records": draw(st.booleans()),
            "steps": draw(st.lists(STEP, min_size=2, max_size=6))}


@st.composite
def synth_cases(draw):
    return {"graph": draw(synth.graph_specs(max_det=6)), "collections": [], "metadata": draw(METADATA), "output": draw(st.sampled_from([None, "u/chain"])),
            "records": draw(st.booleans()), "steps": draw(st.lists(STEP, min_size=2, max_size=5))}


def dump(model):
    return json.loads(model.model_dump_json())


def snapshot(components):
    """Everything in the components, in a comparable form."""
    out = {"header": dump(components.header), "pipeline": pipeline_snapshot(components.pipeline_graph),
           "init": {q.task_label: dump(q) for q in components.init_quanta.root},
           "quanta": {str(i): dump(q) for i, q in components.quantum_datasets.items()},
           "thin": {l: sorted((str(q.quantum_id), tuple(q.data_coordinate)) for q in qs) for l, qs in components.thin_graph.quanta.items()},
           "edges": sorted({(str(a), str(b)) for a, b in components.thin_graph.edges})}
    expect_eq(len(out["init"]), len(components.init_quanta.root), "distinct init quanta")
    return out


def pipeline_snapshot(g):
    tasks = {}
    for l, t in g.tasks.items():
        tasks[l] = (t.task_class_name, t.get_config_str(), sorted(map(str, t.raw_dimensions)),
                    sorted((e.connection_name, e.parent_dataset_type_name, e.component, e.storage_class_name, e.is_prerequisite)
                           for e in t.iter_all_inputs()),
                    sorted((e.connection_name, e.dataset_type_name, e.storage_class_name) for e in t.iter_all_outputs()),
                    sorted((e.connection_name, e.parent_dataset_type_name) for e in t.init.iter_all_inputs()),
                    sorted((e.connection_name, e.dataset_type_name) for e in t.init.iter_all_outputs()))
    types = {n: (str(d.dataset_type), d.is_prerequisite) for n, d in g.dataset_types.items()}
    return tasks, types, g.description, {k: sorted(v) for k, v in g.task_subsets.items()}


def execution_snapshot(qg, ids=None):
    """What the executor sees of each quantum, including dimension records and datastore records."""
    out = {}
    for i, q in qg.build_execution_quanta(ids).items():
        def refs(mapping):
            return sorted(((dt.name, dt.storageClass_name, tuple(dt.dimensions.names)),
                           [(str(r.id), r.run, r.dataId.required_values, r.dataId.full_values, r.dataId.hasRecords(),
                             {e: str(r.dataId.records[e]) for e in r.dataId.dimensions.elements}) for r in rs])
                          for dt, rs in mapping.items())

        out[str(i)] = (q.taskName, q.dataId.required_values, q.dataId.full_values,
                       {e: str(q.dataId.records[e]) for e in q.dataId.dimensions.elements},
                       refs(q.inputs), refs(q.outputs), refs({dt: [r] for dt, r in q.initInputs.items()}),
                       {n: json.dumps(dump(r.to_simple()), sort_keys=True) for n, r in q.datastore_records.items()})
    return out


def execution_checks(exe, snap):
    """What the executor sees is what the graph says."""
    for i, e in exe.items():
        q = snap["quanta"][i]
        for what, got, model in (("inputs", e[4], q["inputs"]), ("outputs", e[5], q["outputs"]), ("init-inputs", e[6], snap["init"][q["task_label"]]["inputs"])):
            want = sorted({(d["dataset_type_name"], d["dataset_id"], d["run"]) for ds in model.values() for d in ds})
            expect_eq(sorted({(name[0].split(".")[0], r[0], r[1]) for name, rs in got for r in rs}), want, f"{what} of an execution quantum")
            if what == "outputs":
                expect_eq(sum(len(rs) for _, rs in got), len(want), "number of outputs of an execution quantum")
        expect_eq(list(e[2]), q["data_coordinate"], "data ID of an execution quantum")
        expect_eq(e[0], snap["pipeline"][0][q["task_label"]][0], "task of an execution quantum")


def graph_checks(qg, snap, ids, thin):
    """The assembled graph agrees with the original's content for the loaded quanta."""
    expect_eq(sorted(map(str, qg)), sorted(snap["quanta"]) if thin else sorted(ids), "iteration over quanta")
    expect_eq(len(qg), len(snap["quanta"]) if thin else len(ids), "number of quanta")
    expect_eq(sorted(str(n) for n in qg.quantum_only_xgraph), sorted(map(str, qg)), "quantum-only nodes")
    edges = sorted((str(a), str(b)) for a, b in qg.quantum_only_xgraph.edges)
    want = snap["edges"] if thin else sorted((a, b) for a, b in snap["edges"] if a in ids and b in ids)
    expect_eq(edges, want, "edges between quanta")
    by_task = {l: sorted(str(i) for i in m.values()) for l, m in qg.quanta_by_task.items()}
    want = {l: [] for l in snap["pipeline"][0]}
    for i, q in snap["quanta"].items():
        if thin or i in ids:
            want[q["task_label"]].append(i)
    expect_eq(by_task, {l: sorted(v) for l, v in want.items()}, "quanta by task")
    x = qg.bipartite_xgraph
    flow, datasets = set(), {}
    for i in ids:
        q = snap["quanta"][i]
        for side in ("inputs", "outputs"):
            for ds in q[side].values():
                for d in ds:
                    datasets[d["dataset_id"]] = d
                    flow.add((d["dataset_id"], i) if side == "inputs" else (i, d["dataset_id"]))
    expect_eq(sorted({(str(a), str(b)) for a, b in x.edges()}), sorted(flow), "dataset edges")
    for n, info in x.nodes.items():
        if str(n) in datasets:
            d = datasets[str(n)]
            expect_eq((info["dataset_type_name"], info["run"], list(info["data_id"].full_values)),
                      (d["dataset_type_name"], d["run"], d["data_coordinate"]), "dataset node")
        else:
            q = snap["quanta"][str(n)]
            expect_eq((info["task_label"], list(info["data_id"].full_values)), (q["task_label"], q["data_coordinate"]), "quantum node")
    named = {(t, str(i)) for t, m in qg.datasets_by_type.items() for i in m.values()}
    calibs = {}
    for d in datasets.values():
        calibs.setdefault((d["dataset_type_name"], json.dumps(d["data_coordinate"])), set()).add(d["dataset_id"])
    for (t, _), alts in calibs.items():
        expect(any((t, i) in named for i in alts), f"datasets_by_type lacks {t} {alts}")


def mask_ids(all_ids, mask):
    return [i for n, i in enumerate(all_ids) if (mask >> (n % 16)) & 1]


def compare(got, want, what, parts=("header", "pipeline", "init", "quanta", "thin", "edges")):
    for p in parts:
        expect_eq(got[p], want[p], f"{what}: {p}")


def renamed(before, after, old_run, new_run):
    """``after`` is ``before`` with the run renamed and fresh, consistent IDs."""
    h = dict(before["header"])
    h["output_run"] = new_run
    expect_eq(after["header"], h, "header after renaming the run")
    expect_eq(after["pipeline"], before["pipeline"], "pipeline after renaming the run")

    def key(q):
        return (q["task_label"], json.dumps(q["data_coordinate"]))

    pairs = [(before["init"][l], after["init"][l]) for l in before["init"]]
    expect_eq(sorted(after["init"]), sorted(before["init"]), "init quanta")
    a = {key(q): q for q in after["quanta"].values()}
    expect_eq(len(a), len(after["quanta"]), "distinct quanta after renaming the run")
    qmap = {}
    for q in before["quanta"].values():
        expect(key(q) in a, f"quantum {key(q)} lost when renaming the run")
        pairs.append((q, a[key(q)]))
        qmap[q["quantum_id"]] = a[key(q)]["quantum_id"]
    expect_eq(len(a), len(before["quanta"]), "number of quanta after renaming the run")
    for i, q in after["quanta"].items():
        expect_eq(q["quantum_id"], i, "key of a quantum")
    made = {d["dataset_id"] for b, _ in pairs for ds in b["outputs"].values() for d in ds}
    ids = {}

    def match(x, y, out):
        expect_eq((y["dataset_type_name"], y["data_coordinate"]), (x["dataset_type_name"], x["data_coordinate"]), "dataset")
        if x["dataset_id"] in made:
            expect_eq(y["run"], new_run, "run of a dataset produced in the graph")
            expect_eq(ids.setdefault(x["dataset_id"], y["dataset_id"]), y["dataset_id"], "one dataset, two IDs after renaming the run")
        elif x["run"] != old_run:
            expect_eq(y, x, "external input after renaming the run")

    for b, c in pairs:
        for side in ("inputs", "outputs"):
            expect_eq(sorted(c[side]), sorted(b[side]), "connections")
            for conn in b[side]:
                expect_eq(len(c[side][conn]), len(b[side][conn]), "datasets of a connection")
                for x, y in zip(b[side][conn], c[side][conn]):
                    match(x, y, side == "outputs")
        expect_eq(c["datastore_records"], b["datastore_records"], "datastore records after renaming the run")
    expect_eq(len(set(ids.values())), len(ids), "distinct IDs of output datasets")
    expect_eq({l: sorted((qmap[i], v) for i, v in qs) for l, qs in before["thin"].items()}, after["thin"], "thin graph")
    expect_eq(sorted((qmap[x], qmap[y]) for x, y in before["edges"]), after["edges"], "edges after renaming the run")


def downgrade(path, new):
    """Rewrite a version-1 file in the version-0 layout (quantum indices instead of IDs in the thin graph)."""
    import zstandard
    from lsst.pipe.base.quantum_graph import PredictedQuantumGraph

    with PredictedQuantumGraph.open(path) as r:
        r.address_reader.read_all()
        index = {str(k): row.index for k, row in r.address_reader.rows.items()}
    with zipfile.ZipFile(path) as zin, zipfile.ZipFile(new, "w") as zout:
        cd = zstandard.ZstdCompressionDict(zin.read("compression_dict")) if "compression_dict" in zin.namelist() else None
        comp, dec = zstandard.ZstdCompressor(dict_data=cd), zstandard.ZstdDecompressor(cd)
        for n in zin.namelist():
            data = zin.read(n)
            if n == "header.json.zst":
                h = json.loads(dec.decompress(data))
                h["version"] = 0
                data = comp.compress(json.dumps(h).encode())
            elif n == "thin_graph.json.zst":
                t = json.loads(dec.decompress(data))
                t = {"quanta": {l: [{"quantum_index": index[q["quantum_id"]], "data_coordinate": q["data_coordinate"]} for q in qs]
                                for l, qs in t["quanta"].items()},
                     "edges": [[index[a], index[b]] for a, b in t["edges"]]}
                data = comp.compress(json.dumps(t).encode())
            zout.writestr(n, data)


def check(case):
    from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder

    spec = case["spec"]
    with core.scratch_dir() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"], put=case["records"])

        def build():
            b = AllDimensionsQuantumGraphBuilder(qgs.make_graph(spec), repo.butler, input_collections=case["collections"], output_run="out")
            return b.finish(output=case["output"], metadata=case["metadata"], attach_datastore_records=case["records"])

        comps, err = qgs.build_outcome(build)
        if err:
            return {"nontrivial": False, "labels": ["not built"]}
        return exercise(case, comps, d)


def synth_check(case):
    with core.scratch_dir() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = synth.Synth(case["graph"], file_records=case["records"])
        s.check_thin()
        s.components.header.metadata = case["metadata"]
        s.components.header.output = case["output"]
        return exercise(case, s.components, d)


def exercise(case, comps, d):
    from lsst.pipe.base.quantum_graph import PredictedQuantumGraph, PredictedQuantumGraphComponents

    if True:
        labels = []
        snap = snapshot(comps)
        exe = execution_snapshot(comps.assemble())
        execution_checks(exe, snap)
        if any(e[-1] != {} for e in exe.values()):
            labels.append("datastore records")
        path = os.path.join(d, "g0.qg")
        comps.write(path)
        expect_eq(snapshot(comps), snap, "writing changes the graph")
        for n, s in enumerate(case["steps"]):
            labels.append(s["op"])
            all_ids = sorted(snap["quanta"])
            if s["op"] == "write":
                path = os.path.join(d, f"g{n + 1}.qg")
                comps.write(path, zstd_level=s["level"], zstd_dict_n_inputs=s["dict_n"], zstd_dict_size=s["dict_size"])
                with zipfile.ZipFile(path) as zf:
                    if "compression_dict" in zf.namelist():
                        labels.append("dictionary")
            elif s["op"] == "rename":
                old = comps.header.output_run
                comps.update_output_run(s["to"])
                new = snapshot(comps)
                renamed(snap, new, old, s["to"])
                snap = new
                exe = execution_snapshot(comps.assemble())
                path = os.path.join(d, f"g{n + 1}.qg")
                comps.write(path)
                all_ids = sorted(snap["quanta"])
            if s["op"] in ("read_all", "write", "rename"):
                page = s.get("page") or 5000
                with PredictedQuantumGraph.open(path, page_size=page) as r:
                    r.read_all()
                    got = r.components
                    qg = r.finish()
                compare(snapshot(got), snap, "read back")
                graph_checks(qg, snap, set(all_ids), True)
                expect_eq(execution_snapshot(qg), exe, "execution quanta read back")
                for l in sorted(set(snap["init"]) - {""}):
                    for side, refs in (("inputs", qg.get_init_inputs(l)), ("outputs", qg.get_init_outputs(l))):
                        expect_eq({c: (str(r.id), r.run) for c, r in refs.items()},
                                  {c: (ds[0]["dataset_id"], ds[0]["run"]) for c, ds in snap["init"][l][side].items()}, f"init {side} of {l}")
            elif s["op"] == "subset":
                ids = mask_ids(all_ids, s["mask"])
                k = s["rot"] % (len(ids) or 1)
                ask = [uuid.UUID(i) for i in ids[k:] + ids[:k]]
                if s["dup"] and ask:
                    ask.append(ask[0])
                if s["unknown"]:
                    with must_raise(LookupError, msg="reading a quantum that is not in the file"):
                        PredictedQuantumGraph.read_execution_quanta(path, ask + [uuid.UUID(int=12345)], page_size=s["page"])
                    continue
                qg = PredictedQuantumGraph.read_execution_quanta(path, iter(ask) if s["gen"] else ask, page_size=s["page"])
                graph_checks(qg, snap, set(ids), False)
                expect_eq(execution_snapshot(qg), {i: exe[i] for i in ids}, "subset of execution quanta")
                expect_eq(execution_snapshot(qg, ask[:1]), {str(i): exe[str(i)] for i in ask[:1]}, "one execution quantum")
                expect_eq(dump(qg.header), snap["header"], "header of a partial read")
            elif s["op"] == "reader":
                with PredictedQuantumGraph.open(path, page_size=s["page"]) as r:
                    loaded, thin, init, dims = set(), False, False, False
                    for x in s["steps"]:
                        if x == "thin":
                            r.read_thin_graph()
                            thin = True
                        elif x == "init":
                            r.read_init_quanta()
                            init = True
                        elif x == "dims":
                            r.read_dimension_data()
                            dims = True
                        elif x == "all":
                            r.read_all()
                            thin = init = dims = True
                            loaded = set(all_ids)
                        elif x == "exec_all":
                            r.read_execution_quanta()
                            init = dims = True
                            loaded = set(all_ids)
                        else:
                            ids = mask_ids(all_ids, x)
                            r.read_execution_quanta([uuid.UUID(i) for i in ids])
                            init = dims = True
                            loaded |= set(ids)
                        got = snapshot(r.components)
                        expect_eq(got["quanta"], {i: snap["quanta"][i] for i in loaded}, f"quanta after step {x}")
                    want = dict(snap)
                    want["quanta"] = {i: snap["quanta"][i] for i in loaded}
                    if not thin:
                        want["thin"], want["edges"] = {}, []
                    if not init:
                        want["init"] = {}
                    compare(got, want, "incremental read")
                    qg = r.finish()
                    partial = r.components
                graph_checks(qg, snap, loaded, thin)
                if init and dims:
                    expect_eq(execution_snapshot(qg, [uuid.UUID(i) for i in sorted(loaded)]), {i: exe[i] for i in loaded},
                              "execution quanta of an incremental read")
                if s["rewrite"]:
                    # A partially read graph is either refused or written as it is.
                    p2 = os.path.join(d, f"p{n}.qg")
                    try:
                        partial.write(p2)
                    except Exception:
                        expect(not (loaded == set(all_ids) and thin and init and dims), "a fully read graph cannot be written again")
                        labels.append("partial refused")
                    else:
                        with PredictedQuantumGraph.open(p2) as r:
                            r.read_all()
                            compare(snapshot(r.components), want, "rewritten after an incremental read")
                        labels.append("rewritten")
            elif s["op"] == "v0":
                p2 = os.path.join(d, f"v{n}.qg")
                downgrade(path, p2)
                with PredictedQuantumGraph.open(p2, page_size=s["page"]) as r:
                    r.read_all()
                    got = snapshot(r.components)
                    qg = r.finish()
                got["header"]["version"] = snap["header"]["version"]
                compare(got, snap, "version-0 file")
                graph_checks(qg, snap, set(all_ids), True)
        # an empty graph survives as well
        empty = PredictedQuantumGraphComponents.make_empty(synth.universe(), output_run="e/r", inputs=case["collections"], output=case["output"])
        expect_eq((empty.header.output_run, empty.header.inputs, empty.header.output), ("e/r", case["collections"], case["output"]), "empty graph")
        return {"nontrivial": len(snap["quanta"]) > 1, "labels": sorted(set(labels))}


FACETS = [Facet("built", cases, check, quick=120, thorough=3000, setup=qgs.template),
          Facet("synthetic", synth_cases, synth_check, quick=1400, thorough=40000, setup=qgs.template)]
