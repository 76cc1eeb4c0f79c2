"""C05: resolving a pipeline graph gives what the connections and the registry imply, in any order of addition."""
from __future__ import annotations

import networkx
import pgraphs as pg
from core import Facet, Violation, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C05"
RULE = ("random sets of up to 6 tasks with up to 6 connections each (regular, prerequisite, init, component, calibration, "
        "skypix placeholder, optional) over up to 9 dataset types with several storage classes, registered or not, valid "
        "or with planted inconsistencies, added in two random orders and resolved; the result (or the rejection) is "
        "compared with an independent model built from the connection descriptions, and every query method with the "
        "model's edges. Steps: random partitions and sharding dimensions, valid or not. Non-trivial: at least two tasks "
        "share a dataset type.")
ASSUMPTIONS = ["storage-class convertibility is decided by daf_butler (StorageClass.can_convert, DatasetType.is_compatible_with)"]


@st.composite
def cases(draw):
    spec = draw(pg.graph_specs(errors=draw(st.sampled_from([True, False])), simple=draw(st.integers(0, 3)) == 0))
    n = len(spec["tasks"])
    return {**spec, "perm": list(draw(st.permutations(range(n)))), "mode": draw(st.sampled_from(["types", "registry"])),
            "via_subgraph": draw(st.integers(0, 5)) == 0, "query": draw(st.integers(0, 10 ** 6))}


class FakeRegistry:
    def __init__(self, types, universe):
        self.types, self.dimensions = types, universe

    def getDatasetType(self, name):
        from lsst.daf.butler import MissingDatasetTypeError

        try:
            return self.types[name]
        except KeyError:
            raise MissingDatasetTypeError(name) from None


def universe():
    from lsst.daf.butler import DimensionUniverse

    return DimensionUniverse()


def resolve(g, types, mode):
    if mode == "types":
        g.resolve(dimensions=universe(), dataset_types=types)
    else:
        g.resolve(FakeRegistry(types, universe()))


def error_types():
    from lsst.daf.butler import MissingDatasetTypeError
    from lsst.pipe.base import pipeline_graph as m

    return {"duplicate": (m.DuplicateOutputError,), "prereq": (m.ConnectionTypeConsistencyError,),
            "incompatible": (m.IncompatibleDatasetTypeError,), "missing": (MissingDatasetTypeError,)}


def try_build(tasks):
    """Build, or return None if the graph is cyclic (checked against the model)."""
    from lsst.pipe.base.pipeline_graph import PipelineDataCycleError

    try:
        g = pg.build(tasks)
    except PipelineDataCycleError:
        expect(pg.has_cycle(tasks), "acyclic pipeline rejected as cyclic", tasks)
        return None
    expect(not pg.has_cycle(tasks), "cyclic pipeline accepted", tasks)
    return g


def check(case):
    tasks = case["tasks"]
    tasks2 = [tasks[i] for i in case["perm"]]
    u = universe()
    types = pg.registered_types(case["registered"], u)
    g1, g2 = try_build(tasks), try_build(tasks2)
    if g1 is None:
        return {"nontrivial": True, "labels": ["cycle"]}
    model, problems = pg.resolve_model(tasks, types, u)
    errs = error_types()
    writers = {}
    for t in tasks:
        for e in pg.edges_of(t):
            if not e["read"]:
                writers.setdefault(e["name"], []).append((e["task"], e["conn"], e["init"]))
    for g in (g1, g2):
        for name in g.dataset_types:
            w = writers.get(name, [])
            try:
                pe = g.producing_edge_of(name)
            except errs["duplicate"]:
                expect(len(w) > 1, f"producing_edge_of({name}) sees two producers", w)
            else:
                expect_eq([(pe.task_label, pg._norm_auto(pg.observe_edge(pe))["conn"], pe.is_init)] if pe else [], w, f"producing_edge_of({name}) before resolve")
    every = tuple(x for v in errs.values() for x in v)
    for g in (g1, g2):
        before = pg.observe(g)
        try:
            resolve(g, types, case["mode"])
        except every as exc:
            expect(problems, f"consistent pipeline rejected with {type(exc).__name__}: {exc}")
            if len(problems) == 1 and "duplicate" not in problems and "invalid" not in problems:
                expect(isinstance(exc, errs[next(iter(problems))]), f"wrong error {type(exc).__name__}: {exc}", problems)
            expect_eq(pg.observe(g), before, "a failed resolve changed the graph")
        else:
            expect(not problems, "inconsistent pipeline accepted", problems)
    if problems:
        return {"nontrivial": True, "labels": sorted(problems)}
    o1, o2 = pg.observe(g1), pg.observe(g2)
    expect_eq(o1, o2, "resolution depends on the order in which tasks were added")
    check_resolved(g1, tasks, model, u)
    if case["via_subgraph"]:
        sub = sorted({t["label"] for i, t in enumerate(tasks) if (case["query"] >> i) & 1})
        if sub:
            part = [t for t in tasks if t["label"] in sub]
            pmodel, pproblems = pg.resolve_model(part, types, u)
            g3 = g1.select(" | ".join(f"T:{x}" for x in sub))
            expect_eq(set(g3.tasks), set(sub), "select() by labels")
            try:
                resolve(g3, types, case["mode"])
            except every:
                expect(pproblems, "resolving a selected part of a pipeline failed", sub)
            else:
                expect(not pproblems, "inconsistent selected part accepted", pproblems)
                check_resolved(g3, part, pmodel, u)
    # resolving again changes nothing
    resolve(g1, types, case["mode"])
    expect_eq(pg.observe(g1), o1, "resolving a resolved graph changes it")
    names = [n for t in tasks for n in {e["name"] for e in pg.edges_of(t)}]
    return {"nontrivial": len(tasks) >= 2 and len(names) > len(set(names)), "labels": ["ok"]}


def check_resolved(g, tasks, model, u):
    from lsst.pipe.base.pipeline_graph import NodeType

    by_label = {t["label"]: t for t in tasks}
    expect(g.is_fully_resolved and g.has_been_sorted, "resolve() left the graph unresolved or unsorted")
    expect_eq(set(g.tasks), set(by_label), "tasks")
    expect_eq(set(g.dataset_types), set(model), "dataset types")
    expect_eq(pg.graph_edge_keys(g), pg.model_edge_keys(tasks), "edges")
    all_edges = [e for t in tasks for e in pg.edges_of(t)]
    for name, m in model.items():
        n = g.dataset_types[name]
        expect_eq(n.dataset_type, m["dataset_type"], f"dataset type {name}")
        expect_eq(n.name, name, "name")
        expect_eq(n.dimensions, m["dataset_type"].dimensions, f"dimensions of {name}")
        expect_eq(n.storage_class_name, m["dataset_type"].storageClass_name, f"storage class of {name}")
        expect_eq(n.is_calibration, m["dataset_type"].isCalibration(), f"is_calibration of {name}")
        expect_eq(n.is_prerequisite, m["prereq"], f"prerequisite flag of {name}")
        if m["regular_input"] or m["producer"]:
            expect_eq(n.is_initial_query_constraint, m["constraint"], f"query-constraint flag of {name}")
        pe = n.producing_edge
        expect_eq(pe and (pe.task_label, pg._norm_auto(pg.observe_edge(pe))["conn"], pe.is_init), m["producer"], f"producing edge of {name}")
        expect_eq(sorted((e.task_label, e.connection_name, e.is_init) for e in n.consuming_edges), m["consumers"], f"consuming edges of {name}")
        pe = g.producing_edge_of(name)
        expect_eq(pe and (pe.task_label, pg._norm_auto(pg.observe_edge(pe))["conn"], pe.is_init), m["producer"], f"producing_edge_of {name}")
        expect_eq(sorted((e.task_label, e.connection_name, e.is_init) for e in g.consuming_edges_of(name)), m["consumers"], f"consuming_edges_of {name}")
        p = g.producer_of(name)
        if m["producer"] is None:
            expect(p is None, f"producer_of {name}", p)
        else:
            expect_eq((p.label, p.key.node_type is NodeType.TASK_INIT), (m["producer"][0], m["producer"][2]), f"producer_of {name}")
        expect_eq(sorted((c.label, c.key.node_type is NodeType.TASK_INIT) for c in g.consumers_of(name)),
                  sorted((t, i) for t, _, i in m["consumers"]), f"consumers_of {name}")
    for label, t in by_label.items():
        n = g.tasks[label]
        expect_eq(n.dimensions, u.conform(t["dims"]), f"dimensions of task {label}")
        ed = pg.edges_of(t)
        for init in (False, True):
            ins = {e["name"] for e in ed if e["read"] and e["init"] == init}
            outs = {e["name"] for e in ed if not e["read"] and e["init"] == init}
            noauto = {e["name"] for e in ed if not e["read"] and e["init"] == init and not e["conn"].startswith("_")}
            expect_eq(set(g.inputs_of(label, init=init)), ins, f"inputs_of {label} init={init}")
            expect_eq(set(g.outputs_of(label, init=init)), outs, f"outputs_of {label} init={init}")
            expect_eq(set(g.outputs_of(label, init=init, include_automatic_connections=False)), noauto, f"outputs_of {label}")
            for k, v in {**g.inputs_of(label, init=init), **g.outputs_of(label, init=init)}.items():
                expect(v is g.dataset_types[k], f"node of {k} from inputs_of/outputs_of")
        # edges adapt the graph-wide dataset type to what the connection declares
        for e in [*n.iter_all_inputs(), *n.iter_all_outputs(), *n.init.iter_all_inputs(), *n.init.iter_all_outputs()]:
            dt = e.adapt_dataset_type(g.dataset_types[e.parent_dataset_type_name].dataset_type)
            expect_eq((dt.name, dt.storageClass_name), (e.dataset_type_name, e.storage_class_name), "adapt_dataset_type")
    produced = {e["name"] for e in all_edges if not e["read"]}
    overall = list(g.iter_overall_inputs())
    expect_eq(sorted(k for k, _ in overall), sorted(set(model) - produced), "overall inputs")
    for k, v in overall:
        expect(v is g.dataset_types[k], "node of an overall input")
    # order
    order = {(t.name, n): i for i, (t, n, _) in enumerate(g.iter_nodes())}
    expect_eq(len(order), len(list(g.iter_nodes())), "iter_nodes repeats nodes")
    kinds = {"T": "TASK", "I": "TASK_INIT", "D": "DATASET_TYPE"}
    ref = pg.nx_graph(tasks)
    expect_eq(set(order), {(kinds[a], b) for a, b in ref.nodes}, "nodes")
    for a, b in ref.edges:
        expect(order[(kinds[a[0]], a[1])] < order[(kinds[b[0]], b[1])], f"order: {a} is not before {b}")
    expect_eq(list(g.tasks), [n for (t, n) in sorted(order, key=order.get) if t == "TASK"], "order of tasks")
    expect_eq(list(g.dataset_types), [n for (t, n) in sorted(order, key=order.get) if t == "DATASET_TYPE"], "order of dataset types")
    # networkx exports
    for init, tk in ((False, "T"), (True, "I")):
        want = {(kinds[a[0]], a[1], kinds[b[0]], b[1]) for a, b in ref.edges if {a[0], b[0]} == {tk, "D"}}
        x = g.make_bipartite_xgraph(init)
        expect_eq({(a.node_type.name, a.name, b.node_type.name, b.name) for a, b, _ in x.edges}, want, "bipartite graph")
        bip = networkx.DiGraph([(a, b) for a, b in ref.edges if {a[0], b[0]} == {tk, "D"}])
        tnodes = {n for n in bip if n[0] == tk}
        dnodes = {n for n in bip if n[0] == "D"}
        tw = {(a[1], c[1]) for a in tnodes for d in bip.successors(a) for c in bip.successors(d) if a != c}
        x = g.make_task_xgraph(init)
        expect_eq({k.name for k in x.nodes}, {n[1] for n in tnodes}, "nodes of the task graph")
        expect_eq({(a.name, b.name) for a, b in x.edges}, tw, "edges of the task graph")
        dw = {(a[1], c[1]) for a in dnodes for t in bip.successors(a) for c in bip.successors(t)}
        x = g.make_dataset_type_xgraph(init)
        expect_eq({k.name for k in x.nodes}, {n[1] for n in dnodes}, "nodes of the dataset type graph")
        expect_eq({(a.name, b.name) for a, b in x.edges}, dw, "edges of the dataset type graph")
    x = g.make_xgraph()
    expect_eq({(a.node_type.name, a.name, b.node_type.name, b.name) for a, b, _ in x.edges},
              {(kinds[a[0]], a[1], kinds[b[0]], b[1]) for a, b in ref.edges}, "full graph")
    for a, b, st_ in x.edges(data=True):
        if "is_init" in st_:
            expect_eq(st_["is_init"], "TASK_INIT" in (a.node_type.name, b.node_type.name), f"is_init of edge {a}->{b}")
    # grouping and splitting
    for pre in (False, True):
        want = {}
        for label, t in by_label.items():
            want.setdefault(u.conform(t["dims"]), (set(), set()))[0].add(label)
        for name, m in model.items():
            if pre or not m["prereq"]:
                want.setdefault(m["dataset_type"].dimensions, (set(), set()))[1].add(name)
        got = {k: (set(a), set(b)) for k, (a, b) in g.group_by_dimensions(pre).items()}
        expect_eq(got, want, f"group_by_dimensions({pre})")
        dims = u.empty
        for d in want:
            dims = dims.union(d)
        expect_eq(g.get_all_dimensions(pre), dims, "get_all_dimensions")
    tg = networkx.Graph([(a, b) for a, b in ref.edges if "I" not in (a[0], b[0])])
    tg.add_nodes_from(("T", t) for t in by_label)
    for name, m in model.items():
        if m["producer"] is None and ("D", name) in tg:
            tg.remove_node(("D", name))
    want = sorted(sorted(n[1] for n in comp if n[0] == "T") for comp in networkx.connected_components(tg) if any(n[0] == "T" for n in comp))
    parts = list(g.split_independent())
    expect_eq(sorted(sorted(p.tasks) for p in parts), want, "split_independent")
    for p in parts:
        expect(p.has_been_sorted, "split_independent lost the sort order")
        expect_eq(pg.graph_edge_keys(p), pg.model_edge_keys([by_label[x] for x in p.tasks]), "edges of an independent part")
        for k in p.dataset_types:
            expect_eq(p.dataset_types[k].dataset_type, model[k]["dataset_type"], "dataset type in an independent part")
    for first in [None, *by_label]:
        for last in [None, *by_label]:
            want = set(by_label)
            if first is not None:
                want &= {n[1] for n in networkx.descendants(ref, ("T", first)) if n[0] == "T"} | {first}
            if last is not None:
                want &= {n[1] for n in networkx.ancestors(ref, ("T", last)) if n[0] == "T"} | {last}
            expect_eq(set(g.tasks.between(first, last)), want, f"between({first}, {last})")


# --------------------------------------------------------------------------------------------------------------
# steps


@st.composite
def step_cases(draw):
    spec = draw(pg.graph_specs(errors=False, simple=True, max_tasks=6))
    labels = [t["label"] for t in spec["tasks"]]
    ref = pg.nx_graph(spec["tasks"])
    topo = [n[1] for n in networkx.lexicographical_topological_sort(ref) if n[0] == "T"]
    if draw(st.integers(0, 3)) == 0:
        topo = list(draw(st.permutations(topo)))
    k = draw(st.integers(1, 3))
    cuts = sorted(draw(st.lists(st.integers(0, len(topo)), min_size=k - 1, max_size=k - 1)))
    bounds = [0, *cuts, len(topo)]
    groups = [topo[a:b] for a, b in zip(bounds, bounds[1:])]
    if draw(st.integers(0, 5)) == 0 and labels:
        i = draw(st.integers(0, len(groups) - 1))
        x = draw(st.sampled_from(labels))
        if x in groups[i]:
            groups[i].remove(x)
        else:
            groups[i].append(x)
    common = None
    for t in spec["tasks"]:
        common = set(t["dims"]) if common is None else common & set(t["dims"])
    dims = [draw(st.sampled_from([[], [], sorted(common or ()), *pg.DIMS])) for _ in groups]
    return {**spec, "steps": [{"label": f"step{i}", "members": m, "dims": d} for i, (m, d) in enumerate(zip(groups, dims)) if m],
            "extra": draw(st.booleans()), "perm": list(draw(st.permutations(range(len(labels)))))}


def dims_compatible(u, a, b):
    """Sharding dimensions ``a`` with the dimensions ``b`` of something in the step, from the definition."""
    if set(a.names) <= set(b.names):
        return True
    ua, ub = set(a.required) - set(b.required), set(b.required) - set(a.required)
    return any(u[e].defines_relationships and set(u[e].dimensions.names) & ua and set(u[e].dimensions.names) & ub
               for e in a.union(b).elements)


def step_check(case):
    from lsst.pipe.base.pipeline_graph import InvalidStepsError

    u = universe()
    types = pg.registered_types(case["registered"], u)
    tasks = case["tasks"]
    ref = pg.nx_graph(tasks)
    if not networkx.is_directed_acyclic_graph(ref):
        return {"nontrivial": False}
    model, problems = pg.resolve_model(tasks, types, u)
    if problems:
        return {"nontrivial": False, "labels": ["unresolvable"]}
    steps = case["steps"]
    by_label = {t["label"]: t for t in tasks}
    bad = set()
    seen = {}
    for i, s in enumerate(steps):
        for m in s["members"]:
            if m in seen:
                bad.add("repeat")
            seen.setdefault(m, i)
    if set(seen) != set(by_label) and steps:
        bad.add("missing")
    if "repeat" not in bad:
        for a, b in ref.edges:
            pass
        for name, m in model.items():
            if m["producer"] and m["producer"][0] in seen:
                for c, _, _ in m["consumers"]:
                    if c in seen and seen[c] < seen[m["producer"][0]]:
                        bad.add("order")
    for s in steps:
        d = u.conform(s["dims"])
        for m in s["members"]:
            things = [u.conform(by_label[m]["dims"])] + [model[e["name"]]["dataset_type"].dimensions
                                                        for e in pg.edges_of(by_label[m]) if not e["read"] and not e["init"]]
            if not all(dims_compatible(u, d, x) for x in things):
                bad.add("dims")
    out = []
    for order in (range(len(tasks)), case["perm"]):
        subsets = {s["label"]: {"members": s["members"], "description": ""} for s in steps}
        if case["extra"]:
            subsets["extra"] = {"members": [tasks[0]["label"]]}
        g = pg.build([tasks[i] for i in order], subsets, [(s["label"], s["dims"]) for s in steps])
        before = pg.observe(g)
        try:
            g.resolve(dimensions=u, dataset_types=types)
        except InvalidStepsError as exc:
            expect(bad, f"valid steps rejected: {exc}", steps)
            after = pg.observe(g)
            # Sharding dimensions are checked last, when nodes may already have been resolved.
            for k in before if bad != {"dims"} else ("edges", "subsets", "steps", "nodes", "sorted"):
                expect_eq(after[k], before[k], f"a failed resolve changed the graph ({k})")
            expect(not g.is_fully_resolved, "graph with invalid steps counts as fully resolved")
        else:
            expect(not bad, "invalid steps accepted", bad, steps)
            out.append(pg.observe(g))
    if bad:
        return {"nontrivial": True, "labels": sorted(bad)}
    expect_eq(out[0], out[1], "resolution with steps depends on the order of addition")
    check_resolved_order(g, ref)
    for label in by_label:
        if steps:
            expect_eq(g.get_task_step(label), steps[seen[label]]["label"], f"step of {label}")
    pos = [seen[t] for t in g.tasks] if steps else []
    expect_eq(pos, sorted(pos), "tasks are not sorted by step")
    for s in steps:
        expect_eq(g.steps.get_dimensions(s["label"]), u.conform(s["dims"]), "step dimensions")
        expect_eq(g.task_subsets[s["label"]].dimensions, u.conform(s["dims"]), "step dimensions via subset")
        expect(g.task_subsets[s["label"]].is_step, "is_step")
    expect_eq(list(g.steps), [s["label"] for s in steps], "steps")
    return {"nontrivial": len(steps) >= 2, "labels": ["ok"]}


def check_resolved_order(g, ref):
    kinds = {"T": "TASK", "I": "TASK_INIT", "D": "DATASET_TYPE"}
    order = {(t.name, n): i for i, (t, n, _) in enumerate(g.iter_nodes())}
    expect_eq(set(order), {(kinds[a], b) for a, b in ref.nodes}, "nodes")
    for a, b in ref.edges:
        expect(order[(kinds[a[0]], a[1])] < order[(kinds[b[0]], b[1])], f"order: {a} is not before {b}")


FACETS = [
    Facet("resolve", cases, check, quick=2400, shards=8),
    Facet("steps", step_cases, step_check, quick=1600, shards=8),
]
