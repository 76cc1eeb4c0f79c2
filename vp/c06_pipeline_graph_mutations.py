"""C06: histories of pipeline-graph mutations against a model, with failed mutations required to change nothing."""
from __future__ import annotations

import copy

import networkx
import pgraphs as pg
from core import Facet, Violation, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C06"
RULE = ("random histories of up to 25 operations (add, re-add, remove, reconfigure with each edge policy, subset and step "
        "edits, description, resolve, sort, copy) over task descriptions that include cycles and conflicts; after every "
        "operation the graph is compared with a model of the surviving definitions, at resolve with a graph built from "
        "scratch, and after a rejected operation with its own state before. Copies made along the way must not change. "
        "Non-trivial: at least one rejected operation or copy and at least three accepted ones.")
ASSUMPTIONS = ["callers only promise unchanged edges (assume_edges_unchanged) when that is true"]

STEPDIMS = [[], ["instrument"], ["skymap", "tract"], ["instrument", "detector"]]


@st.composite
def cases(draw):
    spec = draw(pg.graph_specs(errors=draw(st.booleans()), simple=draw(st.booleans()), max_tasks=7, min_tasks=2))
    alt = draw(pg.graph_specs(errors=draw(st.booleans()), simple=True, max_tasks=7, min_tasks=2))
    # variants: the same label with the connections of another description
    n, m = len(spec["tasks"]), len(alt["tasks"])
    subs = ["s1", "s2", "s3"]
    labels = [t["label"] for t in spec["tasks"]]
    lab = st.sampled_from(labels)
    op = st.one_of(
        st.tuples(st.just("add"), st.lists(st.integers(0, n - 1), min_size=1, max_size=2)),
        st.tuples(st.just("add"), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
        st.tuples(st.just("add_alt"), st.integers(0, m - 1)),
        st.tuples(st.just("remove"), st.lists(lab, min_size=1, max_size=2, unique=True), st.booleans()),
        st.tuples(st.just("reconf"), lab, st.integers(0, 9), st.sampled_from(["value", "alt", "perturb", "log"]),
                  st.sampled_from(["plain", "check", "assume", "both"]), st.integers(0, m - 1)),
        st.tuples(st.just("reconf2"), lab, lab, st.integers(0, m - 1), st.integers(0, m - 1)),
        st.tuples(st.just("add_subset"), st.sampled_from(subs), st.lists(lab, max_size=3, unique=True), st.sampled_from(["", "about"])),
        st.tuples(st.just("del_subset"), st.sampled_from(subs)),
        st.tuples(st.just("sub_add"), st.sampled_from(subs), lab),
        st.tuples(st.just("sub_discard"), st.sampled_from(subs), lab),
        st.tuples(st.just("sub_clear"), st.sampled_from(subs)),
        st.tuples(st.just("step_append"), st.sampled_from(subs), st.sampled_from(STEPDIMS)),
        st.tuples(st.just("step_remove"), st.sampled_from(subs)),
        st.tuples(st.just("step_assign"), st.lists(st.sampled_from(subs), max_size=3, unique=True)),
        st.tuples(st.just("step_dims"), st.sampled_from(subs), st.sampled_from(STEPDIMS)),
        st.tuples(st.just("partition"), st.integers(1, 3), st.sampled_from(STEPDIMS)),
        st.tuples(st.just("describe"), st.sampled_from(["x", "y"])),
        st.tuples(st.just("sort")),
        st.tuples(st.just("resolve")),
        st.tuples(st.just("resolve")),
        st.tuples(st.just("copy"), st.booleans()),
    )
    ops = [("add", list(range(n)))] if draw(st.booleans()) else []
    ops += draw(st.lists(op, min_size=2, max_size=22))
    return {**spec, "alt": alt["tasks"], "ops": [list(o) for o in ops]}


class Model:
    def __init__(self):
        self.tasks, self.subsets, self.steps, self.description = {}, {}, {}, ""

    def build(self):
        return pg.build(list(self.tasks.values()),
                        {k: {"members": v[0], "description": v[1]} for k, v in self.subsets.items()},
                        list(self.steps.items()), self.description)


def struct(o, u):
    """The part of an observation that does not depend on resolution."""
    tasks = {}
    for k, v in o["tasks"].items():
        v = dict(v)
        raw, d = v.pop("raw_dims"), v.pop("dims")
        v["conformed"] = sorted(u.conform(raw if d is None else d).names)
        tasks[k] = v
    return {"tasks": tasks, "dataset_types": sorted(o["dataset_types"]), "edges": o["edges"], "description": o["description"],
            "subsets": o["subsets"], "steps": [(s, sorted(u.conform(d).names)) for s, d in o["steps"]],
            "counts": o["counts"], "nodes": o["nodes"]}


def check(case):
    from lsst.pipe.base import pipeline_graph as m
    from lsst.daf.butler import DimensionUniverse, MissingDatasetTypeError

    u = DimensionUniverse()
    types = pg.registered_types(case["registered"], u)
    g = m.PipelineGraph()
    mod = Model()
    stash = []
    labels = set()
    accepted = rejected = copies = 0
    resolve_errors = (m.PipelineGraphError, MissingDatasetTypeError)

    for op in case["ops"]:
        before = pg.observe(g)
        new = copy.deepcopy(mod)
        must_fail = None  # reason
        kind = op[0]
        call = None
        if kind == "add":
            ts = [case["tasks"][i] for i in op[1]]
            names = [t["label"] for t in ts]
            if len(set(names)) != len(names) or any(x in mod.tasks for x in names):
                if len(ts) > 1:
                    continue
                must_fail = "label in use"
            for t in ts:
                new.tasks[t["label"]] = t
            if not must_fail and pg.has_cycle(list(new.tasks.values())):
                must_fail = "cycle"
            if len(ts) == 1:
                call = lambda: pg.add_to(g, ts[0])
            else:
                donor = m.PipelineGraph()
                try:
                    nodes = [pg.add_to(m.PipelineGraph(), t) for t in ts]
                except m.PipelineDataCycleError:
                    continue
                call = lambda: g.add_task_nodes(nodes)
        elif kind == "add_alt":
            t = case["alt"][op[1]]
            if t["label"] in mod.tasks:
                must_fail = "label in use"
            new.tasks[t["label"]] = t
            if not must_fail and pg.has_cycle(list(new.tasks.values())):
                must_fail = "cycle"
            call = lambda: pg.add_to(g, t)
        elif kind == "remove":
            if any(x not in mod.tasks for x in op[1]):
                must_fail = "no such task"
            else:
                for x in op[1]:
                    del new.tasks[x]
                used = {x for x in op[1] for s in mod.subsets.values() if x in s[0]}
                if used and not op[2]:
                    must_fail = "still in a subset"
                for s in new.subsets.values():
                    s[0][:] = [x for x in s[0] if x not in op[1]]

            def call(op=op):
                got = g.remove_tasks(op[1], drop_from_subsets=op[2])
                expect_eq([(n.label, ss) for n, ss in got],
                          [(x, {k for k, s in mod.subsets.items() if x in s[0]}) for x in op[1]], "result of remove_tasks")
        elif kind in ("reconf", "reconf2"):
            if kind == "reconf":
                _, label, value, what, policy, ai = op
                pairs = [(label, what, ai)]
            else:
                _, l1, l2, a1, a2 = op
                if l1 == l2:
                    continue
                pairs, policy, value = [(l1, "alt", a1), (l2, "alt", a2)], "plain", 1
            if any(l not in mod.tasks for l, _, _ in pairs):
                continue
            confs = []
            same = True
            for label, what, ai in pairs:
                t = copy.deepcopy(mod.tasks[label])
                t["value"] = value
                if policy == "assume":
                    what = "value"
                if what == "alt":
                    t["conns"] = case["alt"][ai]["conns"]
                    t["dims"] = case["alt"][ai]["dims"]
                elif what == "log":
                    t["log"] = not t["log"]
                elif what == "perturb" and t["conns"]:
                    c = t["conns"][ai % len(t["conns"])]
                    c["name"] = f"d{value}"
                if t["label"] != label:
                    raise AssertionError
                same = same and sorted(map(pg.edge_key, pg.edges_of(t))) == sorted(map(pg.edge_key, pg.edges_of(mod.tasks[label])))
                confs.append((label, pg.task_config(t)))
                new.tasks[label] = t
            if policy == "both":
                must_fail = "contradictory arguments"
            elif policy == "check" and not same:
                must_fail = "edges changed"
            elif pg.has_cycle(list(new.tasks.values())):
                must_fail = "cycle"
            call = lambda: g.reconfigure_tasks(*confs, check_edges_unchanged=policy in ("check", "both"),
                                               assume_edges_unchanged=policy in ("assume", "both"))
        elif kind == "add_subset":
            if any(x not in mod.tasks for x in op[2]):
                must_fail = "no such task"
            new.subsets[op[1]] = [sorted(op[2]), op[3]]
            call = lambda: g.add_task_subset(op[1], op[2], op[3])
        elif kind == "partition":
            order = [n[1] for n in networkx.lexicographical_topological_sort(pg.nx_graph(list(mod.tasks.values()))) if n[0] == "T"]
            k = op[1]
            size = -(-len(order) // k) if order else 1
            groups = [order[i:i + size] for i in range(0, len(order), size)][:3]
            new.subsets = {f"s{i + 1}": [sorted(x), ""] for i, x in enumerate(groups)}
            new.steps = {f"s{i + 1}": op[2] for i in range(len(groups))}

            def call(groups=groups, op=op):
                g.steps.clear()
                for x in list(g.task_subsets):
                    g.remove_task_subset(x)
                for i, x in enumerate(groups):
                    g.add_task_subset(f"s{i + 1}", x)
                    g.steps.append(f"s{i + 1}", op[2])
        elif kind == "del_subset":
            if op[1] not in mod.subsets:
                must_fail = "no such subset"
            new.subsets.pop(op[1], None)
            new.steps.pop(op[1], None)
            call = lambda: g.remove_task_subset(op[1])
        elif kind in ("sub_add", "sub_discard", "sub_clear"):
            if op[1] not in mod.subsets:
                continue
            s = new.subsets[op[1]]
            if kind == "sub_add":
                if op[2] not in mod.tasks:
                    must_fail = "no such task"
                s[0] = sorted(set(s[0]) | {op[2]})
                call = lambda: g.task_subsets[op[1]].add(op[2])
            elif kind == "sub_discard":
                s[0] = [x for x in s[0] if x != op[2]]
                call = lambda: g.task_subsets[op[1]].discard(op[2])
            else:
                s[0] = []
                call = lambda: g.task_subsets[op[1]].clear()
        elif kind == "step_append":
            new.steps[op[1]] = op[2]
            call = lambda: g.steps.append(op[1], op[2])
        elif kind == "step_remove":
            if op[1] not in mod.steps:
                must_fail = "no such step"
            new.steps.pop(op[1], None)
            call = lambda: g.steps.remove(op[1])
        elif kind == "step_assign":
            new.steps = {x: mod.steps.get(x, []) for x in op[1]}

            def call(op=op):
                g.steps = op[1]
        elif kind == "step_dims":
            if op[1] not in mod.steps:
                must_fail = "no such step"
            else:
                new.steps[op[1]] = op[2]
            call = lambda: g.steps.set_dimensions(op[1], op[2])
        elif kind == "describe":
            new.description = op[1]

            def call(op=op):
                g.description = op[1]
        elif kind == "sort":
            call = g.sort
        elif kind == "copy":
            copies += 1
            c = g.copy()
            expect_eq(pg.observe(c), before, "a copy differs from the original")
            stash.append((g if op[1] else c, before))
            if op[1]:
                g = c
            continue
        elif kind == "resolve":
            ref = mod.build()
            want = None
            try:
                ref.resolve(dimensions=u, dataset_types=types)
            except resolve_errors as exc:
                want = exc
            try:
                g.resolve(dimensions=u, dataset_types=types)
            except resolve_errors as exc:
                expect(want is not None, f"resolve failed ({type(exc).__name__}: {exc}) after a history, but not from scratch")
                after = pg.observe(g)
                for k in ("edges", "subsets", "steps", "nodes", "description"):
                    expect_eq(after[k], before[k], f"a failed resolve changed the graph ({k})")
                rejected += 1
                labels.add("resolve-failed")
            else:
                expect(want is None, f"resolve succeeded after a history, but fails from scratch: {want}")
                expect_eq(pg.observe(g), pg.observe(ref), "a resolved graph differs from one built from scratch")
                labels.add("resolved")
                accepted += 1
            invariants(g, mod, u)
            continue
        else:
            raise AssertionError(kind)
        try:
            call()
        except Violation:
            raise
        except Exception as exc:
            expect(must_fail, f"{kind} failed unexpectedly: {type(exc).__name__}: {exc}")
            expect(not isinstance(exc, m.PipelineGraphExceptionSafetyError), f"{kind} ({must_fail}) left the graph in an inconsistent state: {exc}")
            expect_eq(pg.observe(g), before, f"a rejected {kind} ({must_fail}) changed the graph")
            rejected += 1
            labels.add(f"rejected-{kind}:{must_fail}")
        else:
            expect(not must_fail, f"{kind} accepted although: {must_fail}")
            mod = new
            accepted += 1
        expect_eq(struct(pg.observe(g), u), struct(pg.observe(mod.build()), u), f"content after {kind}")
        invariants(g, mod, u)
    for other, snap in stash:
        expect_eq(pg.observe(other), snap, "a graph changed when its copy was edited")
    return {"nontrivial": accepted >= 3 and (rejected + copies) >= 1, "labels": sorted(labels)}


def invariants(g, mod, u):
    edges = {}
    for t in mod.tasks.values():
        for e in pg.edges_of(t):
            edges.setdefault(e["name"], []).append(pg.edge_key(e))
    for name in g.dataset_types:
        if g.dataset_types.is_resolved(name):
            n = g.dataset_types[name]
            got = sorted(pg.edge_key(pg._norm_auto(pg.observe_edge(e))) for e in [*n.consuming_edges, *([n.producing_edge] if n.producing_edge else [])])
            expect_eq(got, sorted(edges[name]), f"stale resolution of {name}")
    if g.has_been_sorted:
        ref = pg.nx_graph(list(mod.tasks.values()))
        kinds = {"T": "TASK", "I": "TASK_INIT", "D": "DATASET_TYPE"}
        order = {(t.name, n): i for i, (t, n, _) in enumerate(g.iter_nodes())}
        expect_eq(set(order), {(kinds[a], b) for a, b in ref.nodes}, "sorted nodes")
        for a, b in ref.edges:
            expect(order[(kinds[a[0]], a[1])] < order[(kinds[b[0]], b[1])], f"graph counts as sorted but {a} is not before {b}")
    if g.is_fully_resolved and mod.steps:
        for s in mod.steps:
            expect(s in mod.subsets, "graph counts as resolved with a step that is not a subset")
        where = {x: s for s in mod.steps for x in mod.subsets[s][0]}
        expect_eq({t: g.get_task_step(t) for t in g.tasks}, where, "step of each task in a resolved graph")


FACETS = [Facet("history", cases, check, quick=2400, shards=8)]
