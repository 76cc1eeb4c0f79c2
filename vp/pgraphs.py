"""Generated pipeline graphs (as plain data), how to build them, and an independent model of what they mean.

A *task spec* is ``{"label", "cls": 1|2, "dims", "log": bool, "value", "conns": [conn...]}``; a *conn* is
``{"conn", "kind": in|out|prereq|init_in|init_out, "name", "dims", "sc", "calib", "minimum", "defer_query"}``.
"""
from __future__ import annotations

import copy
import json

import networkx
from hypothesis import strategies as st

DIMS = [[], ["instrument"], ["instrument", "detector"], ["instrument", "visit"], ["instrument", "visit", "detector"],
        ["instrument", "exposure", "detector"], ["skymap", "tract"], ["skymap", "tract", "patch"], ["htm7"],
        ["band"], ["instrument", "physical_filter"], ["visit"], ["detector"]]
SCS = ["StructuredDataDict", "StructuredDataList", "TaskMetadata", "ArrowTable", "ArrowAstropy", "DataFrame"]
COMPONENTS = {"columns": "DataFrameIndex", "rowcount": "int", "schema": "ArrowSchema"}
LABELS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]


@st.composite
def conn_of(draw, dt, kind, idx, *, errors):
    c = {"conn": f"c{idx}", "kind": kind, "name": dt["name"], "dims": dt["dims"], "sc": dt["sc"],
         "calib": dt["calib"]}
    if kind in ("init_in", "init_out"):
        c["dims"], c["calib"] = [], False
    if kind in ("in", "prereq"):
        r = draw(st.integers(0, 9))
        if r == 0:
            c["minimum"] = 0
        elif r == 1 and kind == "in":
            c["defer_query"] = True
        elif r == 2 and kind == "in":
            c["defer_query"] = True
            c["minimum"] = 0
    if kind in ("in", "prereq", "init_in"):
        r = draw(st.integers(0, 11))
        if r <= 1:
            c["sc"] = draw(st.sampled_from(SCS))
        elif r == 2 and dt["sc"] in SCS[3:]:
            comp = draw(st.sampled_from(sorted(COMPONENTS)))
            c["name"] = f"{dt['name']}.{comp}"
            c["sc"] = COMPONENTS[comp] if draw(st.integers(0, 3)) else draw(st.sampled_from(
                ["StructuredDataDict", "ArrowSchema", "int", "ArrowAstropySchema"]))
    if kind == "out" or kind == "init_out":
        if draw(st.integers(0, 9)) == 0:
            c["sc"] = draw(st.sampled_from(SCS))
    if errors and kind not in ("init_in", "init_out") and draw(st.integers(0, 14)) == 0:
        what = draw(st.sampled_from(["dims", "calib", "sc", "comp", "skypix"]))
        if what == "dims":
            c["dims"] = draw(st.sampled_from(DIMS))
        elif what == "calib":
            c["calib"] = not c["calib"]
        elif what == "sc":
            c["sc"] = draw(st.sampled_from(SCS))
        elif what == "comp" and kind != "out":
            c["name"] = f"{dt['name']}.nonexistent"
        elif what == "skypix" and kind != "out":
            c["dims"] = ["skypix"]
    if "htm7" in c["dims"] and kind in ("in", "prereq") and draw(st.booleans()):
        c["dims"] = ["skypix" if d == "htm7" else d for d in c["dims"]]
    return c


@st.composite
def graph_specs(draw, max_tasks=6, errors=True, simple=False, min_tasks=1):
    """``simple``: one storage class, no components, always resolvable."""
    n_dt = draw(st.integers(2, 9))
    dts = []
    for i in range(n_dt):
        dts.append({"name": f"d{i}",
                    "dims": draw(st.sampled_from(DIMS)),
                    "sc": "StructuredDataDict" if simple else draw(st.sampled_from(SCS + SCS[3:])),
                    "calib": draw(st.integers(0, 9)) == 0,
                    "init": draw(st.integers(0, 4)) == 0,
                    "prereq": draw(st.integers(0, 4)) == 0})
        if dts[-1]["init"]:
            dts[-1].update(dims=[], calib=False)
    n_tasks = draw(st.integers(min_tasks, max_tasks))
    labels = draw(st.permutations(LABELS))[:n_tasks]
    unclaimed = set(range(n_dt))
    tasks = []
    used_as_input = set()
    for label in labels:
        conns = []
        n_in = draw(st.integers(0, 3))
        ins = draw(st.lists(st.integers(0, n_dt - 1), max_size=n_in, unique=True)) if n_in else []
        top = -1
        for i in ins:
            dt = dts[i]
            kind = "init_in" if dt["init"] else ("prereq" if dt["prereq"] and i in unclaimed else "in")
            if errors and draw(st.integers(0, 40)) == 0:
                kind = draw(st.sampled_from(["init_in", "prereq", "in"]))
            if simple and kind == "prereq" and i not in unclaimed:
                kind = "in"
            used_as_input.add((i, kind))
            cgen = conn_of(dt, kind, len(conns), errors=errors) if not simple else st.just(
                {"conn": f"c{len(conns)}", "kind": kind, "name": dt["name"], "dims": [] if kind == "init_in" else dt["dims"],
                 "sc": dt["sc"], "calib": kind != "init_in" and dt["calib"]})
            conns.append(draw(cgen))
            top = max(top, i)
        n_out = draw(st.integers(0, 3))
        for _ in range(n_out):
            ok = [i for i in sorted(unclaimed) if i > top and (i, "prereq") not in used_as_input]
            if errors and draw(st.integers(0, 30)) == 0:
                ok = list(range(n_dt))
            if not ok:
                break
            i = draw(st.sampled_from(ok))
            unclaimed.discard(i)
            dt = dts[i]
            kind = "init_out" if dt["init"] else "out"
            cgen = conn_of(dt, kind, len(conns), errors=errors) if not simple else st.just(
                {"conn": f"c{len(conns)}", "kind": kind, "name": dt["name"], "dims": dt["dims"], "sc": dt["sc"],
                 "calib": dt["calib"]})
            conns.append(draw(cgen))
        tasks.append({"label": label, "cls": draw(st.sampled_from([1, 2])), "dims": draw(st.sampled_from(DIMS)),
                      "log": draw(st.integers(0, 3)) > 0, "value": draw(st.integers(0, 3)), "conns": conns})
    registered = {}
    for dt in dts:
        if draw(st.integers(0, 2)) == 0:
            reg = {"dims": dt["dims"], "sc": dt["sc"], "calib": dt["calib"]}
            if errors and draw(st.integers(0, 14)) == 0:
                reg["dims"] = draw(st.sampled_from(DIMS))
            if not simple and draw(st.integers(0, 6)) == 0:
                reg["sc"] = draw(st.sampled_from(SCS))
            registered[dt["name"]] = reg
    if errors and draw(st.integers(0, 12)) == 0 and tasks:
        t = draw(st.sampled_from(tasks))
        registered[f"{t['label']}_{draw(st.sampled_from(['metadata', 'log', 'config']))}"] = {
            "dims": t["dims"], "sc": draw(st.sampled_from(["TaskMetadata", "ButlerLogRecords", "Config", "StructuredDataDict"])),
            "calib": False}
    return {"tasks": tasks, "registered": registered}


@st.composite
def subset_specs(draw, labels, with_steps=True):
    labels = sorted(labels)
    subs = {}
    if not labels:
        return {"subsets": {}, "steps": []}
    for name in draw(st.lists(st.sampled_from(["s1", "s2", "s3"]), max_size=3, unique=True)):
        subs[name] = sorted(draw(st.sets(st.sampled_from(labels), min_size=1)))
    return {"subsets": subs, "steps": []}


def task_config(t):
    import vptasks

    cfg = vptasks.SpecConfig()
    cfg.spec = json.dumps({"dims": t["dims"], "conns": t["conns"]})
    cfg.saveLogOutput = t["log"]
    cfg.value = t["value"]
    return cfg


def task_class(t):
    import vptasks

    return vptasks.SpecTask if t["cls"] == 1 else vptasks.SpecTask2


def add_to(graph, t):
    return graph.add_task(t["label"], task_class(t), task_config(t))


def build(tasks, subsets=None, steps=None, description=""):
    from lsst.pipe.base.pipeline_graph import PipelineGraph

    g = PipelineGraph()
    if description:
        g.description = description
    for t in tasks:
        add_to(g, t)
    for name, s in (subsets or {}).items():
        g.add_task_subset(name, s["members"], s.get("description", ""))
    for name, dims in (steps or []):
        g.steps.append(name, dims)
    return g


def registered_types(spec, universe):
    from lsst.daf.butler import DatasetType

    return {k: DatasetType(k, universe.conform(v["dims"]), v["sc"], isCalibration=v["calib"] )
            for k, v in spec.items()}


# --------------------------------------------------------------------------------------------------------------
# model


def edges_of(t):
    """All edges of a task, automatic ones included: dicts with kind/name/component/..."""
    out = []
    for c in t["conns"]:
        if c.get("defer_bind"):
            continue
        parent, _, comp = c["name"].partition(".")
        is_init = c["kind"] in ("init_in", "init_out")
        out.append({"task": t["label"], "init": is_init, "conn": c["conn"],
                    "read": c["kind"] in ("in", "prereq", "init_in"), "name": parent, "component": comp or None,
                    "prereq": c["kind"] == "prereq", "sc": c["sc"],
                    "dims": frozenset(() if is_init else c["dims"]),
                    "calib": (not is_init) and bool(c.get("calib")),
                    "defer": bool(c.get("defer_query")) or c.get("minimum", 1) == 0})
    auto = [("_config", f"{t['label']}_config", True, "Config", frozenset()),
            ("_metadata", f"{t['label']}_metadata", False, "TaskMetadata", frozenset(t["dims"]))]
    if t["log"]:
        auto.append(("_log", f"{t['label']}_log", False, "ButlerLogRecords", frozenset(t["dims"])))
    for conn, name, init, sc, dims in auto:
        out.append({"task": t["label"], "init": init, "conn": conn, "read": False, "name": name, "component": None,
                    "prereq": False, "sc": sc, "dims": dims, "calib": False, "defer": False})
    return out


def nx_graph(tasks):
    """Directed graph over ("T", label), ("I", label), ("D", name)."""
    g = networkx.DiGraph()
    for t in tasks:
        tk, ik = ("T", t["label"]), ("I", t["label"])
        g.add_edge(ik, tk)
        for e in edges_of(t):
            k = ik if e["init"] else tk
            if e["read"]:
                g.add_edge(("D", e["name"]), k)
            else:
                g.add_edge(k, ("D", e["name"]))
    return g


def has_cycle(tasks):
    return not networkx.is_directed_acyclic_graph(nx_graph(tasks))


def resolve_model(tasks, registered, universe):
    """Return ({name: info}, set of problems); ``registered``: name -> DatasetType."""
    from lsst.daf.butler import DatasetType, StorageClassFactory

    problems = set()
    by_name = {}
    for t in tasks:
        for e in edges_of(t):
            by_name.setdefault(e["name"], []).append(e)
    result = {}
    for name, edges in by_name.items():
        writers = [e for e in edges if not e["read"]]
        readers = [e for e in edges if e["read"]]
        if len(writers) > 1:
            problems.add("duplicate")
            continue
        current = registered.get(name)
        is_reg = current is not None

        def mk(e):
            return DatasetType(name, universe.conform(e["dims"]), e["sc"], isCalibration=e["calib"])

        if writers:
            try:
                made = mk(writers[0])
            except Exception:
                problems.add("invalid")
                continue
            if current is None:
                current = made
            elif not current.is_compatible_with(made):
                problems.add("incompatible")
        prereqs = {e["prereq"] for e in readers} | ({False} if writers else set())
        if len(prereqs) > 1:
            problems.add("prereq")
        wholes = [e for e in readers if e["component"] is None]
        comps = [e for e in readers if e["component"] is not None]
        if current is None:
            plain = [e for e in wholes if "skypix" not in e["dims"]]
            if wholes and not plain:
                # the placeholder can only be used when the dataset type is known
                problems.add("missing")
                continue
            sky = [e for e in wholes if "skypix" in e["dims"]]
            if not wholes:
                problems.add("missing")
                continue
            defs = [mk(e) for e in plain]
            if any(d != defs[0] for d in defs):
                problems.add("missing")
                continue
            current = defs[0]
            for e in sky + [c for c in comps if "skypix" in c["dims"]]:
                rest = set(universe.conform(e["dims"] - {"skypix"}).names)
                if rest != set(current.dimensions.names) - set(current.dimensions.skypix):
                    problems.add("incompatible")
                elif e["component"] is None and DatasetType(name, current.dimensions, e["sc"], isCalibration=e["calib"]) != current:
                    problems.add("missing")
        else:
            for e in wholes + comps:
                if "skypix" in e["dims"]:
                    rest = set(universe.conform(e["dims"] - {"skypix"}).names)
                    if rest != set(current.dimensions.names) - set(current.dimensions.skypix):
                        problems.add("incompatible")
                    elif e["component"] is None and not DatasetType(
                            name, current.dimensions, e["sc"], isCalibration=e["calib"]).is_compatible_with(current):
                        problems.add("incompatible")
                elif e["component"] is None and not mk(e).is_compatible_with(current):
                    problems.add("incompatible")
        for e in comps:
            allc = current.storageClass.allComponents()
            if e["component"] not in allc:
                problems.add("incompatible")
            else:
                have = allc[e["component"]]
                if have.name != e["sc"] and not StorageClassFactory().getStorageClass(e["sc"]).can_convert(have):
                    problems.add("incompatible")
        result[name] = {"dataset_type": current, "prereq": True in prereqs,
                        "constraint": not writers and not any(e["defer"] for e in readers),
                        "regular_input": not writers and not any(e["prereq"] or e["init"] for e in readers),
                        "producer": (writers[0]["task"], writers[0]["conn"], writers[0]["init"]) if writers else None,
                        "consumers": sorted((e["task"], e["conn"], e["init"]) for e in readers)}
    return result, problems


# --------------------------------------------------------------------------------------------------------------
# observation of a real graph


def observe_edge(e):
    from lsst.pipe.base.pipeline_graph import ReadEdge

    d = {"task": e.task_label, "init": e.is_init, "conn": e.connection_name, "read": isinstance(e, ReadEdge),
         "name": e.parent_dataset_type_name, "component": getattr(e, "component", None),
         "prereq": getattr(e, "is_prerequisite", False), "sc": e.storage_class_name, "dims": frozenset(e.raw_dimensions),
         "calib": e.is_calibration, "defer": getattr(e, "defer_query_constraint", False)}
    return d


def edge_key(d):
    return (d["task"], d["conn"], d["init"], d["read"], d["name"], d["component"] or "", d["prereq"], d["sc"],
            tuple(sorted(d["dims"])), d["calib"], d["defer"])


AUTO = {"_config": "_config", "_metadata": "_metadata", "_log": "_log"}


def model_edge_keys(tasks):
    return sorted(edge_key(e) for t in tasks for e in edges_of(t))


def graph_edge_keys(g):
    return sorted(edge_key(_norm_auto(observe_edge(e))) for init in (False, True) for e in g.iter_edges(init))


def _norm_auto(d):
    from lsst.pipe.base import automatic_connection_constants as acc

    names = {acc.CONFIG_INIT_OUTPUT_CONNECTION_NAME: "_config", acc.METADATA_OUTPUT_CONNECTION_NAME: "_metadata",
             acc.LOG_OUTPUT_CONNECTION_NAME: "_log"}
    if not d["read"] and d["conn"] in names:
        d = dict(d, conn=names[d["conn"]])
    return d


def observe(g, *, with_order=True, with_config=True):
    """Everything visible about a graph, as comparable plain data."""
    from lsst.pipe.base.pipeline_graph import NodeType

    tasks = {}
    for label in g.tasks:
        n = g.tasks[label]
        tasks[label] = {
            "label": n.label, "class": n.task_class_name,
            "config": _config_key(n) if with_config else None,
            "raw_dims": sorted(n.raw_dimensions) if not n.has_resolved_dimensions else None,
            "dims": sorted(n.dimensions.names) if n.has_resolved_dimensions else None,
            "edges": sorted(edge_key(_norm_auto(observe_edge(e))) for e in
                            [*n.iter_all_inputs(), *n.iter_all_outputs(), *n.init.iter_all_inputs(), *n.init.iter_all_outputs()])}
    dts = {}
    for name in g.dataset_types:
        if not g.dataset_types.is_resolved(name):
            dts[name] = None
        else:
            n = g.dataset_types[name]
            dts[name] = {"type": (n.dataset_type.name, sorted(n.dataset_type.dimensions.names), n.dataset_type.storageClass_name,
                                  n.dataset_type.isCalibration()),
                         "constraint": n.is_initial_query_constraint, "prereq": n.is_prerequisite,
                         "producing": edge_key(_norm_auto(observe_edge(n.producing_edge))) if n.producing_edge else None,
                         "consuming": sorted(edge_key(_norm_auto(observe_edge(e))) for e in n.consuming_edges)}
    out = {"tasks": tasks, "dataset_types": dts, "edges": graph_edge_keys(g), "description": g.description,
           "subsets": {k: (sorted(v), v.description, v.label, v.is_step) for k, v in g.task_subsets.items()},
           "steps": [(s, sorted(g.steps._dimensions_by_label[s])) for s in g.steps],
           "sorted": g.has_been_sorted, "resolved": g.is_fully_resolved,
           "counts": (len(g.tasks), len(g.dataset_types)),
           "nodes": sorted((t.name, str(n)) for t, n, _ in g.iter_nodes())}
    if with_order and g.has_been_sorted:
        out["order"] = [(t.name, n) for t, n, _ in g.iter_nodes()]
        out["task_order"] = list(g.tasks)
        out["dt_order"] = list(g.dataset_types)
    out["step_of"] = None
    if g.steps and g.steps.verified and g.is_fully_resolved:
        out["step_of"] = {t: g.get_task_step(t) for t in g.tasks}
    return out


def _config_key(n):
    if n.is_imported:
        return (n.config.spec, n.config.value, n.config.saveLogOutput)
    return None
