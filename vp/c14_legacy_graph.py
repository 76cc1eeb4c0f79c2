"""C14: legacy quantum graphs agree with predicted graphs and survive all forms of I/O."""
from __future__ import annotations

import io
import json
import os
import pickle
import uuid

import hypothesis.strategies as st
import networkx as nx

import core
import qgs
import synth
from core import Facet, expect, expect_eq, must_raise

LEVEL = "exploration"
RULE = ("legacy graphs made from generated predicted graphs, taken through 2-6 generated steps of saving and loading (old and new "
        "format, file, stream, all nodes or any subset by UUID or string), pickling, subsetting (any iterable), splitting into "
        "connected parts, conversion to the predicted form and back, and renaming the run; every intermediate graph is compared "
        "with an independent description and all traversal queries are checked; non-trivial if the graph has an edge")

MASK = st.integers(0, 2**16 - 1)
STEP = st.one_of(
    st.fixed_dictionaries({"op": st.just("save_load"), "how": st.sampled_from(["qgraph", "qg", "stream"])}),
    st.fixed_dictionaries({"op": st.just("load_nodes"), "how": st.sampled_from(["qgraph", "qg", "stream"]), "mask": MASK,
                           "ids": st.sampled_from(["uuid", "str", "gen"]), "bad": st.integers(0, 5).map(lambda i: i == 0)}),
    st.just({"op": "pickle"}),
    st.fixed_dictionaries({"op": st.just("subset"), "mask": MASK, "how": st.sampled_from(["list", "set", "gen", "one"])}),
    st.just({"op": "connected"}),
    st.just({"op": "convert"}),
    st.fixed_dictionaries({"op": st.just("rename"), "to": st.sampled_from(["new/run", "out2"]), "key": st.sampled_from([None, "output_run"]),
                           "new_id": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("around"), "n": st.integers(0, 50), "what": st.sampled_from(["connections", "ancestors"])}),
)


@st.composite
def cases(draw):
    return {"graph": draw(synth.graph_specs()), "records": draw(st.booleans()),
            "metadata": draw(st.dictionaries(st.sampled_from(["a", "data_query", "é"]), st.one_of(st.integers(), st.sampled_from(["x", ""]), st.none()), max_size=2)),
            "steps": draw(st.lists(STEP, min_size=2, max_size=6))}


def ref_tuple(r):
    return (r.datasetType.name, r.datasetType.storageClass_name, str(r.id), r.run, r.dataId.full_values)


def node_snapshot(n):
    q = n.quantum

    def side(m):
        return sorted((dt.name, [ref_tuple(r) for r in rs]) for dt, rs in m.items() if rs)

    return {"label": n.taskDef.label, "class": n.taskDef.taskName, "config": n.taskDef.config.spec, "data_id": q.dataId.full_values,
            "dims": sorted(q.dataId.dimensions.names), "records": {e: str(q.dataId.records[e]) for e in q.dataId.dimensions.elements},
            "in": side(q.inputs), "out": side(q.outputs), "init": sorted(ref_tuple(r) for r in q.initInputs.values()),
            "store": {k: json.loads(v.to_simple().model_dump_json()) for k, v in q.datastore_records.items()}}


def snapshot(g):
    nodes = {}
    for n in g:
        expect(n.nodeId not in nodes, "node listed twice")
        nodes[n.nodeId] = node_snapshot(n)
    labels = {s["label"] for s in nodes.values()}
    meta = dict(g.metadata)
    meta.pop("packages", None)
    return {"nodes": nodes, "edges": {(a.nodeId, b.nodeId) for a, b in g.graph.edges},
            "init_in": {l: sorted(map(ref_tuple, g.get_init_input_refs(l))) for l in labels},
            "init_out": {l: sorted(map(ref_tuple, g.get_init_output_refs(l))) for l in labels},
            "global": sorted(map(ref_tuple, g.globalInitOutputRefs())),
            "types": {t.name: str(t) for t in g.registryDatasetTypes()}, "metadata": meta, "universe": str(g.universe), "id": g.graphID}


def restrict(snap, ids):
    out = dict(snap)
    out["nodes"] = {i: s for i, s in snap["nodes"].items() if i in ids}
    out["edges"] = {(a, b) for a, b in snap["edges"] if a in ids and b in ids}
    labels = {s["label"] for s in out["nodes"].values()}
    out["init_in"] = {l: v for l, v in snap["init_in"].items() if l in labels}
    out["init_out"] = {l: v for l, v in snap["init_out"].items() if l in labels}
    return out


def compare(got, want, what, same_id=True):
    for k in ("nodes", "edges", "init_in", "init_out", "global", "metadata", "universe") + (("id",) if same_id else ()):
        expect_eq(got[k], want[k], f"{what}: {k}")
    needed = {t for s in want["nodes"].values() for side in ("in", "out") for t, _ in s[side]}
    needed |= {r[0] for s in want["init_in"].values() for r in s} | {r[0] for s in want["init_out"].values() for r in s}
    for t in needed & set(want["types"]):
        expect_eq(got["types"].get(t), want["types"][t], f"{what}: registry dataset type {t}")
    for t, s in got["types"].items():
        expect(t not in want["types"] or want["types"][t] == s, f"{what}: unexpected dataset type {s}")


def queries(g, snap):
    """All traversal queries agree with the nodes and edges."""
    nodes = snap["nodes"]
    up = {i: {a for a, b in snap["edges"] if b == i} for i in nodes}
    down = {i: {b for a, b in snap["edges"] if a == i} for i in nodes}
    order = [n.nodeId for n in g]
    expect_eq(len(g), len(nodes), "length")
    expect_eq(sorted(map(str, order)), sorted(map(str, nodes)), "iteration")
    pos = {i: k for k, i in enumerate(order)}
    for a, b in snap["edges"]:
        expect(pos[a] < pos[b], "iteration is not in topological order")
    expect_eq({n.nodeId for n in g.inputQuanta}, {i for i in nodes if not up[i]}, "input quanta")
    expect_eq({n.nodeId for n in g.outputQuanta}, {i for i in nodes if not down[i]}, "output quanta")
    for i, s in nodes.items():
        n = g.getQuantumNodeByNodeId(i)
        expect(n in g and g.checkQuantumInGraph(n.quantum), "node is in the graph")
        expect_eq({m.nodeId for m in g.determineInputsToQuantumNode(n)}, up[i], "inputs of a node")
        expect_eq({m.nodeId for m in g.determineOutputsOfQuantumNode(n)}, down[i], "outputs of a node")
    with must_raise(KeyError, msg="unknown node"):
        g.getQuantumNodeByNodeId(uuid.UUID(int=1))
    expect_eq(g.findCycle(), [], "cycles")
    labels = {s["label"] for s in nodes.values()}
    consumers, producer = {}, {}
    task_edges = set()
    for l in labels:
        td = g.findTaskDefByLabel(l)
        want = {i for i, s in nodes.items() if s["label"] == l}
        expect_eq({n.nodeId for n in g.getNodesForTask(td)}, want, f"nodes of {l}")
        expect_eq(g.getNumberOfQuantaForTask(td), len(want), f"number of quanta of {l}")
        expect_eq(len(g.getQuantaForTask(td)), len(want), f"quanta of {l}")
        expect_eq({(i, str(q.dataId.full_values)) for i, q in g.get_task_quanta(l).items()}, {(i, str(nodes[i]["data_id"])) for i in want},
                  f"task quanta of {l}")
        conns = td.connections
        for c in list(conns.inputs) + list(conns.prerequisiteInputs) + list(conns.initInputs):
            consumers.setdefault(getattr(conns, c).name, set()).add(l)
        for c in conns.outputs:
            producer[getattr(conns, c).name] = l
    expect(g.findTaskDefByLabel("nope") is None, "unknown label")
    expect_eq({t.label for t in g.findTaskDefByName("SpecTask")}, labels, "tasks by class name")
    if labels:
        expect_eq(set(g.allDatasetTypes), set(consumers) | set(producer), "dataset types")
    for t in sorted(set(consumers) | set(producer)):
        cons, prod = consumers.get(t, set()), producer.get(t)
        expect_eq({x.label for x in g.findTasksWithInput(t)}, cons, f"consumers of {t}")
        p = g.findTaskWithOutput(t)
        expect_eq(p.label if p else None, prod, f"producer of {t}")
        both = cons | ({prod} if prod else set())
        expect_eq({x.label for x in g.tasksWithDSType(t)}, both, f"tasks using {t}")
        expect_eq(sorted(str((q.taskName, q.dataId.full_values)) for q in g.findQuantaWithDSType(t)),
                  sorted(str((s["class"], s["data_id"])) for s in nodes.values() if s["label"] in both), f"quanta using {t}")
        if prod:
            task_edges |= {(prod, c) for c in cons}
    got = {(a.label, b.label) for a, b in g.taskGraph.edges}
    expect(task_edges <= got, f"task graph lacks {task_edges - got}")
    expect_eq({t.label for t in g.taskGraph}, labels, "tasks in the task graph")
    names = [t.label for t in g.iterTaskGraph()]
    expect_eq(sorted(names), sorted(labels), "iteration over tasks")
    for a, b in task_edges:
        expect(names.index(a) < names.index(b), "tasks are not in topological order")
    if nodes:
        x = nx.Graph()
        x.add_nodes_from(nodes)
        x.add_edges_from(snap["edges"])
        expect_eq(g.isConnected, nx.is_connected(x), "connectedness")


def renamed(before, after, run):
    made = {r[2] for s in before["nodes"].values() for _, rs in s["out"] for r in rs}
    made |= {r[2] for v in before["init_out"].values() for r in v} | {r[2] for r in before["global"]}
    ids = {}

    def refs(x, y, what):
        expect_eq(len(y), len(x), what)
        for a, b in zip(x, y):
            expect_eq((b[0], b[1], b[4]), (a[0], a[1], a[4]), what)
            if a[2] in made:
                expect_eq(b[3], run, f"{what}: run")
                expect_eq(ids.setdefault(a[2], b[2]), b[2], f"{what}: one dataset has two IDs")
            else:
                expect_eq(b, a, f"{what}: external input")

    expect_eq(set(after["nodes"]), set(before["nodes"]), "nodes after renaming the run")
    for i, s in before["nodes"].items():
        t = after["nodes"][i]
        for k in ("label", "class", "config", "data_id", "records", "store"):
            expect_eq(t[k], s[k], f"{k} after renaming the run")
        for side in ("in", "out"):
            expect_eq([n for n, _ in t[side]], [n for n, _ in s[side]], "dataset types after renaming the run")
            for (n, x), (_, y) in zip(s[side], t[side]):
                refs(x, y, n)
        refs(s["init"], t["init"], "init inputs of a quantum")
    for k in ("init_in", "init_out"):
        for l in before[k]:
            refs(before[k][l], after[k][l], f"{k} of {l}")
    refs(before["global"], after["global"], "global init outputs")
    expect_eq(len(set(ids.values())), len(ids), "distinct IDs after renaming the run")
    for k in ("edges", "types", "universe"):
        expect_eq(after[k], before[k], f"{k} after renaming the run")


def check(case):
    from lsst.pipe.base import QuantumGraph
    from lsst.pipe.base.quantum_graph import PredictedQuantumGraph, PredictedQuantumGraphComponents

    with core.scratch_dir() as d:
        s = synth.Synth(case["graph"], file_records=case["records"])
        s.components.header.metadata = dict(case["metadata"])
        g = s.components.assemble().to_old_quantum_graph()
        snap = snapshot(g)
        # against the independent description
        expect_eq(set(snap["nodes"]), {q["id"] for q in s.quanta.values()}, "nodes of the converted graph")
        expect_eq(snap["edges"], s.id_edges(), "edges of the converted graph")
        for k, q in s.quanta.items():
            n = snap["nodes"][q["id"]]
            expect_eq(n["label"], k[0], "task of a node")
            for side in ("in", "out"):
                expect_eq(sorted(r[2] for _, rs in n[side] for r in rs), sorted(str(s.datasets[x]["id"]) for ks in q[side].values() for x in ks),
                          f"{side}puts of {k}")
        for l in snap["init_in"]:
            for side, got in (("in", snap["init_in"][l]), ("out", snap["init_out"][l])):
                expect_eq(sorted(r[2] for r in got), sorted(str(s.datasets[x]["id"]) for x in s.init[l][side].values()), f"init {side}puts of {l}")
        for k, v in case["metadata"].items():
            expect_eq(snap["metadata"].get(k), v, "metadata")
        queries(g, snap)
        labels = []
        for n, step in enumerate(case["steps"]):
            op = step["op"]
            labels.append(op)
            ids = sorted(snap["nodes"], key=str)
            if op == "save_load" or op == "load_nodes":
                how = step["how"]
                labels.append(how)
                kw = {}
                want = snap
                if op == "load_nodes":
                    pick = [i for k, i in enumerate(ids) if synth.bit(step["mask"], k)]
                    nodes = pick + ([uuid.UUID(int=5)] if step["bad"] else [])
                    nodes = [str(i) for i in nodes] if step["ids"] == "str" else (i for i in nodes) if step["ids"] == "gen" else nodes
                    if how == "stream" and step["ids"] == "str":
                        nodes = [uuid.UUID(i) for i in nodes]
                    kw["nodes"] = nodes
                    want = restrict(snap, set(pick))
                path = os.path.join(d, f"g{n}." + ("qg" if how == "qg" else "qgraph"))
                buf = io.BytesIO()
                if how == "stream":
                    g.save(buf)
                    buf.seek(0)
                else:
                    g.saveUri(path)
                compare(snapshot(g), snap, "saving changes the graph")

                def load(**more):
                    if how == "stream":
                        return QuantumGraph.load(buf, **kw, **more)
                    return QuantumGraph.loadUri(path, **kw, **more)

                if kw and step["bad"]:
                    with must_raise(ValueError, LookupError, msg="loading a node that is not in the file"):
                        load()
                    continue
                g2 = load()
                # graph IDs are a concept of the old format only
                compare(snapshot(g2), want, f"{op} {how}", same_id=how != "qg")
                if how != "qg" and op == "save_load":
                    with must_raise(ValueError, msg="a graph ID that does not match"):
                        load(graphID="nope")
                    expect(g2 == g, "the graph read back is not equal to the original")
                g = g2
                snap = want
                if how == "qg":
                    snap = dict(snap, id=g.graphID)
            elif op == "pickle":
                g2 = pickle.loads(pickle.dumps(g))
                compare(snapshot(g2), snap, "pickle")
                expect(g2 == g, "the unpickled graph is not equal to the original")
                g = g2
            elif op == "subset":
                pick = [i for k, i in enumerate(ids) if synth.bit(step["mask"], k)]
                nodes = [g.getQuantumNodeByNodeId(i) for i in pick]
                if step["how"] == "one":
                    if not nodes:
                        continue
                    pick, arg = pick[:1], nodes[0]
                else:
                    arg = {"list": list, "set": set, "gen": iter}[step["how"]](nodes)
                g2 = g.subset(arg)
                snap = restrict(snap, set(pick))
                compare(snapshot(g2), snap, "subset")
                g = g2
            elif op == "around":
                if not ids:
                    continue
                i = ids[step["n"] % len(ids)]
                node = g.getQuantumNodeByNodeId(i)
                if step["what"] == "connections":
                    keep = {i} | {a for a, b in snap["edges"] if b == i} | {b for a, b in snap["edges"] if a == i}
                    g2 = g.determineConnectionsOfQuantumNode(node)
                else:
                    keep, todo = {i}, [i]
                    while todo:
                        j = todo.pop()
                        for a, b in snap["edges"]:
                            if b == j and a not in keep:
                                keep.add(a)
                                todo.append(a)
                    g2 = g.determineAncestorsOfQuantumNode(node)
                compare(snapshot(g2), restrict(snap, keep), step["what"])
                queries(g2, restrict(snap, keep))
            elif op == "connected":
                parts = [snapshot(p) for p in g.subsetToConnected()]
                x = nx.Graph()
                x.add_nodes_from(ids)
                x.add_edges_from(snap["edges"])
                want = sorted(sorted(map(str, c)) for c in nx.connected_components(x))
                expect_eq(sorted(sorted(map(str, p["nodes"])) for p in parts), want, "connected subsets")
                for p in parts:
                    compare(p, restrict(snap, set(p["nodes"])), "connected subset")
            elif op == "convert":
                new = PredictedQuantumGraph.from_old_quantum_graph(g)
                expect_eq(set(new), set(snap["nodes"]), "quanta of the new form")
                expect_eq(set(new.quantum_only_xgraph.edges), snap["edges"], "edges of the new form")
                expect_eq(new.header.n_quanta, len(ids), "count in the new form")
                g2 = new.to_old_quantum_graph()
                compare(snapshot(g2), snap, "to the new form and back", same_id=False)
                snap = dict(snap, id=g2.graphID)
                g = g2
            elif op == "rename":
                before = dict(snap, types=snapshot(g)["types"])
                g.updateRun(step["to"], metadata_key=step["key"], update_graph_id=step["new_id"])
                snap = snapshot(g)
                renamed(before, snap, step["to"])
                if step["key"]:
                    expect_eq(snap["metadata"], dict(before["metadata"], **{step["key"]: step["to"]}), "metadata after renaming the run")
                else:
                    expect_eq(snap["metadata"], before["metadata"], "metadata after renaming the run")
                if not step["new_id"]:
                    expect_eq(snap["id"], before["id"], "graph ID")
            queries(g, snap)
        return {"nontrivial": bool(s.edges), "labels": sorted(set(labels))}


FACETS = [Facet("history", cases, check, quick=700, thorough=20000, setup=qgs.template)]
