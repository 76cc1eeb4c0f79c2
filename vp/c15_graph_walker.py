"""C15: graph traversal respects dependencies, hands out everything once, and accounts for failures."""
from __future__ import annotations

import uuid

import networkx
from core import Facet, Violation, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C15"
RULE = ("random DAGs (also multigraphs and disconnected ones) of up to 14 nodes with a random schedule of finish, "
        "early finish, fail and poll events, compared step by step with a set-based model; ordering fix-ups over "
        "random data IDs compared with the transitive closure they should give. Non-trivial: a node with at least two "
        "predecessors and at least one failure, or an ordering with at least two groups.")
ASSUMPTIONS = ["only nodes that have not yet finished, failed or been blocked are finished or failed"]


@st.composite
def dags(draw, max_nodes=14):
    n = draw(st.integers(0, max_nodes))
    edges = []
    dens = draw(st.sampled_from([1, 2, 3]))
    for j in range(1, n):
        k = draw(st.integers(0, min(j, dens)))
        for _ in range(k):
            edges.append([draw(st.integers(0, j - 1)), j])
    if n:
        perm = draw(st.permutations(range(n)))
        edges = [[perm[a], perm[b]] for a, b in edges]
    return n, edges


@st.composite
def cases(draw):
    n, edges = draw(dags())
    events = draw(st.lists(st.tuples(st.sampled_from(["poll", "poll", "finish", "finish", "finish", "fail", "early", "early_ready", "fail_ready", "fail_early"]),
                                     st.integers(0, 1000)), max_size=40))
    return {"n": n, "edges": edges, "multi": draw(st.booleans()), "events": [list(e) for e in events]}


def check(case):
    from lsst.pipe.base.graph_walker import GraphWalker

    cls = networkx.MultiDiGraph if case["multi"] else networkx.DiGraph
    g = cls()
    g.add_nodes_from(range(case["n"]))
    edges = [tuple(e) for e in case["edges"]]
    if not case["multi"]:
        edges = sorted(set(edges))
    g.add_edges_from(edges)
    pure = networkx.DiGraph(list(set(map(tuple, case["edges"]))))
    pure.add_nodes_from(range(case["n"]))
    preds = {v: set(pure.predecessors(v)) for v in pure}
    desc = {v: set(networkx.descendants(pure, v)) for v in pure}
    anc = {v: set(networkx.ancestors(pure, v)) for v in pure}
    w = GraphWalker(g)
    finished, failed, blocked, given = set(), set(), set(), []
    early = set()  # finished before their predecessors
    it = iter(w)
    labels = set()

    def open_nodes():
        return set(range(case["n"])) - finished - failed - blocked

    def ready():
        return {v for v in open_nodes() if preds[v] <= finished and v not in given}

    def poll():
        if not open_nodes():
            try:
                got = next(it)
            except StopIteration:
                return False
            raise Violation(f"iteration goes on after every node is done: {got}")
        try:
            got = next(it)
        except StopIteration:
            raise Violation(f"iteration ended with open nodes {open_nodes()}")
        expect_eq(len(set(got)), len(list(got)), "duplicates in one batch")
        expect_eq(set(got), ready(), f"nodes handed out (finished={finished}, failed={failed}, blocked={blocked}, given={given})")
        given.extend(got)
        return True

    def do_fail(v):
        expected = desc[v] - blocked - failed
        b = w.fail(v)
        failed.add(v)
        expect_eq(sorted(b), sorted(expected), f"blocked nodes reported when {v} failed")
        blocked.update(b)
        labels.add("fail")

    for kind, k in case["events"]:
        op = open_nodes()
        if kind == "poll":
            poll()
            continue
        if kind in ("finish",):
            cand = sorted(v for v in given if v in op)
        elif kind == "early_ready":
            cand = sorted(ready())
        elif kind == "early":
            # documented: "does not need to have been returned by the iterator yet"
            cand = sorted(v for v in op if v not in given)
        elif kind == "fail":
            cand = sorted(v for v in given if v in op)
        elif kind == "fail_ready":
            cand = sorted(ready())
        else:
            cand = sorted(v for v in op if v not in given)
        if kind.startswith("fail"):
            # failing an ancestor of something that already finished has no defined meaning
            cand = [v for v in cand if not (desc[v] & (finished | set(given)))]
        if not cand:
            continue
        v = cand[k % len(cand)]
        if kind.startswith("fail"):
            do_fail(v)
        else:
            if not preds[v] <= finished:
                labels.add("early-finish")
                # keep to schedules in which the ancestors can still complete
            # a node must not be finished early when a descendant is already given out
            w.finish(v)
            finished.add(v)
    # drain
    guard = 0
    while open_nodes():
        guard += 1
        if guard > 4 * case["n"] + 10:
            raise Violation(f"traversal does not make progress: open={open_nodes()} given={given}")
        poll()
        for v in sorted(v for v in given if v in open_nodes()):
            w.finish(v)
            finished.add(v)
    expect(not poll(), "iteration ended")
    expect_eq(len(given), len(set(given)), "each node at most once")
    order = {v: i for i, v in enumerate(given)}
    for a, b in pure.edges:
        if a in order and b in order:
            expect(order[a] < order[b], "handed out before its predecessor", a, b)
    return {"nontrivial": any(len(p) > 1 for p in preds.values()) and bool(failed),
            "labels": sorted(labels) + ["join" if any(len(p) > 1 for p in preds.values()) else "nojoin"]}


@st.composite
def fixup_cases(draw):
    n = draw(st.integers(1, 9))
    ids = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 12)), min_size=n, max_size=n, unique=True))
    others = draw(st.integers(0, 3))
    edges = []
    for _ in range(draw(st.integers(0, 4))):
        a = draw(st.integers(0, n - 1))
        o = draw(st.integers(0, max(0, others - 1)))
        if others:
            edges.append([a, o, draw(st.booleans())])
    return {"ids": [list(i) for i in ids], "dims": draw(st.sampled_from([["exposure"], ["detector"], ["exposure", "detector"], ["detector", "exposure"], "exposure"])),
            "reverse": draw(st.booleans()), "others": others, "edges": edges}


def check_fixup(case):
    from lsst.daf.butler import DataCoordinate, DimensionUniverse
    from lsst.pipe.base.exec_fixup_data_id import ExecFixupDataId

    u = _universe()
    dims = u.conform(["exposure", "detector"])
    quanta = {}
    for d, e in case["ids"]:
        quanta[DataCoordinate.standardize(instrument="I", detector=d, exposure=e, dimensions=dims)] = uuid.uuid4()
    ids = list(quanta.values())
    other = [uuid.uuid4() for _ in range(case["others"])]
    other_q = {DataCoordinate.standardize(instrument="I", detector=i, exposure=50, dimensions=dims): o for i, o in enumerate(other)}
    g = networkx.DiGraph()
    g.add_nodes_from(ids + other)
    sinks, sources = set(), set()
    for a, o, into in case["edges"]:
        # other nodes are either pure sources or pure sinks so the fix-up cannot create a cycle
        if into and o not in sinks:
            sources.add(o)
            g.add_edge(other[o], ids[a])
        elif not into and o not in sources:
            sinks.add(o)
            g.add_edge(ids[a], other[o])
    before = g.copy()
    ExecFixupDataId("t", case["dims"], reverse=case["reverse"]).fixup_graph(g, {"t": quanta, "u": other_q})
    expect(networkx.is_directed_acyclic_graph(g), "fixed-up graph is acyclic")
    expect_eq(set(g.nodes), set(before.nodes), "nodes")
    dnames = [case["dims"]] if isinstance(case["dims"], str) else case["dims"]
    key = {}
    for did, qid in quanta.items():
        key[qid] = tuple(did[x] for x in dnames)
    want = before.copy()
    for a in ids:
        for b in ids:
            if (key[a] > key[b]) if case["reverse"] else (key[a] < key[b]):
                want.add_edge(a, b)
    expect_eq(set(networkx.transitive_closure(g).edges), set(networkx.transitive_closure(want).edges),
              "ordering implied by the fix-up")
    expect(set(before.edges) <= set(g.edges), "original edges kept")
    return {"nontrivial": len(set(key.values())) > 1}


_U = None


def _universe():
    global _U
    if _U is None:
        from lsst.daf.butler import DimensionUniverse

        _U = DimensionUniverse()
    return _U


FACETS = [
    Facet("walk", cases, check, quick=16000),
    Facet("fixup", fixup_cases, check_fixup, quick=1500, shards=4),
]
