"""C07: every form of copying or saving a pipeline graph gives back the same graph."""
from __future__ import annotations

import copy
import io
import os
import pickle

import pgraphs as pg
from core import Facet, expect, expect_eq, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C07"
RULE = ("random pipeline graphs (components, calibrations, prerequisites, init datasets, unregistered and registered dataset "
        "types, subsets, steps with dimensions, data ID) in random states (unresolved, resolved, partially resolved, sorted "
        "or not); written and read as stream and file in every import mode, pickled, copied, and round-tripped twice; the "
        "loaded graph is compared with the original through its whole public surface and must behave alike when resolved "
        "afterwards. Facet 'changed': the task classes change between writing and reading; each import mode must do what it "
        "documents. Non-trivial: at least two tasks and either subsets or a resolved dataset type that is both written and read.")
ASSUMPTIONS = []


@st.composite
def cases(draw):
    spec = draw(pg.graph_specs(errors=False, simple=draw(st.booleans()), max_tasks=6))
    labels = [t["label"] for t in spec["tasks"]]
    subs = {}
    for name in draw(st.lists(st.sampled_from(["s1", "s2", "s3"]), max_size=3, unique=True)):
        subs[name] = {"members": sorted(draw(st.sets(st.sampled_from(labels)))),
                      "description": draw(st.sampled_from(["", "about é \"it\"", "x"]))}
    mode = draw(st.sampled_from(["none", "one", "split"]))
    steps = []
    if mode == "one":
        subs["step1"] = {"members": sorted(labels), "description": "all"}
        steps = [["step1", draw(st.sampled_from([[], ["instrument"], ["skymap", "tract"], ["visit"]]))]]
    elif mode == "split":
        # in an order that may or may not be a valid flow
        k = draw(st.integers(0, len(labels)))
        subs["step1"] = {"members": sorted(labels[:k]), "description": ""}
        subs["step2"] = {"members": sorted(labels[k:]), "description": "second"}
        steps = [["step1", draw(st.sampled_from([[], ["instrument"]]))], ["step2", []]]
        if draw(st.booleans()):
            steps.reverse()
    return {**spec, "subsets": subs, "steps": steps, "description": draw(st.sampled_from(["", "a\nb", "desc"])),
            "data_id": draw(st.sampled_from([None, {"instrument": "I1"}, {"instrument": "I1", "detector": 3}])),
            "state": draw(st.sampled_from(["raw", "sorted", "resolved", "resolved", "resolved", "partial", "resolved_types"])),
            "held": draw(st.integers(0, 3))}


def make(case):
    """Build the graph and bring it into the wanted state; None if that state is impossible."""
    from lsst.daf.butler import DimensionUniverse, MissingDatasetTypeError
    from lsst.pipe.base import pipeline_graph as m

    u = DimensionUniverse()
    types = pg.registered_types(case["registered"], u)
    tasks = case["tasks"]
    held = []
    if case["state"] == "partial" and len(tasks) > 1:
        held = tasks[-1 - case["held"] % (len(tasks) - 1):]
        tasks = tasks[: len(tasks) - len(held)]
    g = m.PipelineGraph(data_id=case["data_id"])
    g.description = case["description"]
    for t in tasks:
        pg.add_to(g, t)
    labels = {t["label"] for t in tasks}
    if not held:
        for name, s in case["subsets"].items():
            g.add_task_subset(name, s["members"], s["description"])
        for name, dims in case["steps"]:
            g.steps.append(name, dims)
    state = case["state"]
    try:
        if state == "sorted":
            g.sort()
        elif state in ("resolved", "partial", "resolved_types"):
            if state == "resolved_types":
                g.resolve(dimensions=u, dataset_types={})
            else:
                g.resolve(dimensions=u, dataset_types=types)
    except (m.PipelineGraphError, MissingDatasetTypeError):
        pass  # the state it is left in can be saved, too
    if held:
        for t in held:
            pg.add_to(g, t)
        for name, s in case["subsets"].items():
            g.add_task_subset(name, s["members"], s["description"])
        for name, dims in case["steps"]:
            g.steps.append(name, dims)
    return g, u, types


SKIP = ("config", "task_class", "connections", "lookup_functions")


def full(g, imported=True):
    o = pg.observe(g, with_config=imported)
    o["universe"] = g._universe
    o["raw_data_id"] = None
    o["verified"] = g.steps.verified
    try:
        o["data_id"] = g.data_id
    except Exception as exc:  # unresolved
        o["data_id"] = type(exc).__name__
    o["step_dims"] = {}
    for s in g.steps:
        try:
            o["step_dims"][s] = g.steps.get_dimensions(s)
        except Exception as exc:
            o["step_dims"][s] = type(exc).__name__
    o["iter_overall_inputs"] = sorted(k for k, _ in g.iter_overall_inputs())
    for kind in ("make_xgraph", "make_bipartite_xgraph", "make_task_xgraph", "make_dataset_type_xgraph"):
        for init in (None, False, True):
            if (init is None) != (kind == "make_xgraph"):
                continue
            xg = getattr(g, kind)() if init is None else getattr(g, kind)(init=init)
            o[f"{kind}-{init}"] = (sorted((str(k), k.node_type.name, sorted((a, str(b)) for a, b in v.items() if a != "step" and a not in SKIP)
                                           ) for k, v in xg.nodes.items()),
                                   sorted((str(a), str(b), str(sorted((x, str(y)) for x, y in v.items()))) for a, b, v in xg.edges(data=True)))
    o["init_config"] = {k: g.tasks[k].init.task_class_name for k in g.tasks}
    o["config_str"] = {k: g.tasks[k].get_config_str() for k in g.tasks}
    o["conn_names"] = {k: (sorted(n.inputs), sorted(n.outputs), sorted(n.prerequisite_inputs), n.log_output is None,
                           n.metadata_output.dataset_type_name, sorted(n.init.inputs), sorted(n.init.outputs),
                           n.init.config_output.dataset_type_name) for k, n in g.tasks.items()}
    return o


def stream(g, mode):
    from lsst.pipe.base.pipeline_graph import PipelineGraph

    b = io.BytesIO()
    g._write_stream(b)
    b.seek(0)
    return PipelineGraph._read_stream(b, import_mode=mode)


def forms(g, d):
    from lsst.pipe.base.pipeline_graph import PipelineGraph, TaskImportMode as M

    for mode in M:
        yield f"stream {mode.name}", stream(g, mode), mode is not M.DO_NOT_IMPORT
    p = os.path.join(d, "g.json.gz")
    g._write_uri(p)
    yield "file", PipelineGraph._read_uri(p), True
    yield "file twice", stream(PipelineGraph._read_uri(p, import_mode=M.DO_NOT_IMPORT), M.REQUIRE_CONSISTENT_EDGES), True
    yield "pickle", pickle.loads(pickle.dumps(g)), True
    yield "pickle of unimported", pickle.loads(pickle.dumps(stream(g, M.DO_NOT_IMPORT))), False
    yield "copy", g.copy(), True
    yield "copy.copy", copy.copy(g), True
    yield "deepcopy", copy.deepcopy(g), True
    loaded = stream(g, M.DO_NOT_IMPORT)
    loaded._import_and_configure(M.ASSUME_CONSISTENT_EDGES)
    yield "import later", loaded, True


def check(case):
    from lsst.daf.butler import MissingDatasetTypeError
    from lsst.pipe.base import pipeline_graph as m

    g, u, types = make(case)
    want = full(g)
    want_unimported = full(g, imported=False)
    results = {}
    with scratch_dir() as d:
        made = list(forms(g, d))
    for name, other, imported in made:
        expect_eq(full(g), want, f"{name} changed the original")
        got = full(other, imported=imported)
        ref = want if imported else want_unimported
        for k in ref:
            expect_eq(got[k], ref[k], f"{name}: {k} differs")
        expect_eq([t.is_imported for t in other.tasks.values()], [imported] * len(other.tasks), f"{name}: imported")
        if imported:
            expect_eq(g.diff_tasks(other), [], f"{name}: diff_tasks")
            for label in g.tasks:
                expect(other.tasks[label].config == g.tasks[label].config, f"{name}: config of {label} differs")
                expect(other.tasks[label].task_class is g.tasks[label].task_class, f"{name}: class")
        for name_ in g.dataset_types:
            expect_eq(sorted(x.label for x in other.consumers_of(name_)), sorted(x.label for x in g.consumers_of(name_)), f"{name}: consumers of {name_}")
            p1 = g.producer_of(name_) if not _dup(g, name_) else None
            p2 = other.producer_of(name_) if p1 is not None or not _dup(g, name_) else None
            expect_eq(p2 and p2.key, p1 and p1.key, f"{name}: producer of {name_}")
    # the loaded graphs behave like the original afterwards
    after = None
    for name, other, imported in [("original", g.copy(), True), *made]:
        try:
            other.resolve(dimensions=u, dataset_types=types)
            r = ("ok", full(other, imported=False))
        except (m.PipelineGraphError, MissingDatasetTypeError) as exc:
            r = (type(exc).__name__, None)
        if after is None:
            after = r
        expect_eq(r[0], after[0], f"{name}: outcome of resolving afterwards")
        if r[1] is not None:
            for k in r[1]:
                if k in ("order", "task_order", "dt_order"):
                    continue
                expect_eq(r[1][k], after[1][k], f"{name}: {k} after resolving")
    expect_eq(full(g), want, "the original changed when a copy was resolved")
    both = any(n is not None and n["producing"] and n["consuming"] for n in want["dataset_types"].values())
    return {"nontrivial": len(case["tasks"]) >= 2 and bool(both or case["subsets"]),
            "labels": [case["state"] + ("-full" if want["resolved"] else ""), "steps" if case["steps"] else "nosteps", after[0]]}


def _dup(g, name):
    return len([1 for i in (False, True) for e in g.iter_edges(i)
                if type(e).__name__ == "WriteEdge" and e.dataset_type_name == name]) > 1


# --------------------------------------------------------------------------------------------------------------
# the task definitions changed between writing and reading

@st.composite
def changed_cases(draw):
    case = draw(cases())
    case["state"] = draw(st.sampled_from(["raw", "resolved", "resolved"]))
    case["steps"], case["subsets"] = [], {}
    case["changes"] = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(
        ["drop", "rename", "sc", "none", "dims", "minimum", "add_out", "add_in", "multiple"])).map(list), min_size=1, max_size=2))
    return case


def perturbed(t, what):
    """The same task as its class will describe it when the graph is read back."""
    t = copy.deepcopy(t)
    c = t["conns"][0] if t["conns"] else None
    if what == "add_out":
        t["conns"].append({"conn": "extra", "kind": "out", "name": f"extra_{t['value']}_out", "dims": t["dims"], "sc": "StructuredDataDict", "calib": False})
    elif what == "add_in":
        t["conns"].append({"conn": "extra", "kind": "in", "name": f"extra_{t['value']}_in", "dims": t["dims"], "sc": "StructuredDataDict", "calib": False})
    elif c is None or what == "none":
        return t
    elif what == "drop":
        del t["conns"][0]
    elif what == "rename":
        c["name"] = c["name"] + "_renamed" if "." not in c["name"] else c["name"].split(".")[0]
    elif what == "sc":
        c["sc"] = "StructuredDataList" if c["sc"] != "StructuredDataList" else "StructuredDataDict"
    elif what == "dims":
        if c["kind"] in ("in", "out", "prereq"):
            c["dims"] = ["instrument"] if list(c["dims"]) != ["instrument"] else ["skymap", "tract"]
    elif what == "minimum":
        if c["kind"] == "in":
            c["minimum"] = 0
    elif what == "multiple":
        c["multiple"] = True
    return t


def changed_check(case):
    import vptasks
    from lsst.pipe.base import pipeline_graph as m
    from lsst.pipe.base.pipeline_graph import TaskImportMode as M

    changes = {int(v): w for v, w in case["changes"]}
    # values identify the task class version; make them unique per task
    for i, t in enumerate(case["tasks"]):
        t["value"] = i
    g, u, types = make(case)
    b = io.BytesIO()
    g._write_stream(b)
    new_tasks = [perturbed(t, changes.get(t["value"], "none")) for t in case["tasks"]]
    differ = {t["label"] for t, n in zip(case["tasks"], new_tasks) if pg.model_edge_keys([t]) != pg.model_edge_keys([n])}
    cyc = pg.has_cycle(new_tasks)
    hooked = {t["value"]: {"dims": t["dims"], "conns": t["conns"]} for t in new_tasks}
    for mode in M:
        b.seek(0)
        vptasks.SPEC_OVERRIDE.update(hooked)
        try:
            try:
                loaded = m.PipelineGraph._read_stream(b, import_mode=mode)
            finally:
                vptasks.SPEC_OVERRIDE.clear()
        except m.EdgesChangedError:
            expect(mode is M.REQUIRE_CONSISTENT_EDGES and differ, f"{mode.name}: edges reported as changed", differ)
            continue
        except m.PipelineDataCycleError:
            expect(mode is M.OVERRIDE_EDGES and cyc, f"{mode.name}: cycle reported")
            continue
        expect(not (mode is M.REQUIRE_CONSISTENT_EDGES and differ), "changed edges accepted", sorted(differ))
        expect(not (mode is M.OVERRIDE_EDGES and cyc), "cycle accepted")
        tasks = new_tasks if mode is M.OVERRIDE_EDGES else case["tasks"]
        expect_eq(pg.graph_edge_keys(loaded), pg.model_edge_keys(tasks), f"{mode.name}: edges")
        if mode is not M.OVERRIDE_EDGES:
            expect_eq(pg.observe(loaded, with_config=False), pg.observe(g, with_config=False), f"{mode.name}: graph")
        else:
            expect_eq(sorted(loaded.dataset_types), sorted({e["name"] for t in tasks for e in pg.edges_of(t)}), "dataset types")
            by_name = {}
            for t in tasks:
                for e in pg.edges_of(t):
                    by_name.setdefault(e["name"], []).append(pg.edge_key(e))
            for name in loaded.dataset_types:
                if loaded.dataset_types.is_resolved(name):
                    n = loaded.dataset_types[name]
                    got = sorted(pg.edge_key(pg._norm_auto(pg.observe_edge(e))) for e in
                                 [*n.consuming_edges, *([n.producing_edge] if n.producing_edge else [])])
                    expect_eq(got, sorted(by_name[name]), f"stale resolution of {name}")
            if not differ:
                expect_eq(pg.observe(loaded, with_config=False), pg.observe(g, with_config=False), f"{mode.name}: graph")
    return {"nontrivial": bool(differ), "labels": sorted(set(changes.values()))}


FACETS = [Facet("same", cases, check, quick=1200, shards=8),
          Facet("changed", changed_cases, changed_check, quick=1200, shards=8)]
