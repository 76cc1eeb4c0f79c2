"""C03: editing, subsetting and merging a pipeline does exactly what was asked."""
from __future__ import annotations

import copy
import os

import pipes
from core import Facet, Violation, expect, expect_eq, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C03"
TECHNIQUE = "model-based property testing (Hypothesis): edit histories against a document model"
RULE = ("histories of up to 12 public edits (valid and invalid) on a small pool of pipelines that are copied, subset and merged "
        "into each other; after every step every pipeline in the pool is compared with its model, so leftovers, lost "
        "overrides and sharing between pipelines show; and random task DAGs subset by label, labeled subset or range, "
        "in memory and through URI fragments, compared with the reachability relation. Non-trivial: a history with at "
        "least one merge or subset followed by an edit, or a DAG with an edge.")

ERRORS = (ValueError, LookupError, KeyError)


@st.composite
def hist_cases(draw):
    d0 = draw(pipes.docs(labels=pipes.LABELS[:5], min_tasks=1))
    others = [draw(pipes.docs(labels=draw(st.sampled_from([pipes.LABELS[3:], pipes.LABELS[:5]])), min_tasks=1,
                              subset_names=draw(st.sampled_from([pipes.SUBSETS[2:], pipes.SUBSETS])), inst=pipes.INSTS[:1]))
              for _ in range(draw(st.integers(0, 2)))]
    ops = []
    lab = st.sampled_from(pipes.LABELS[:6] + pipes.SUBSETS[:1] + ["zzz"])
    sub = st.sampled_from(pipes.SUBSETS + ["t0"])
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["add_task", "remove_task", "to_subset", "from_subset", "new_subset", "drop_subset", "find",
                                  "inst", "kv", "kv", "py", "file", "param", "param_bad", "merge", "merge", "merge", "subset", "subset", "copy"]))
        ops.append({"op": k, "who": draw(st.integers(0, 5)), "label": draw(lab), "subset": draw(sub),
                    "labels": draw(st.lists(st.sampled_from(pipes.LABELS[:6] * 3 + pipes.SUBSETS + ["zzz"]), min_size=1, max_size=4, unique=True)),
                    "klass": draw(st.sampled_from("AB")), "key": draw(st.sampled_from(pipes.KEYS)), "val": draw(pipes.VALUES),
                    "py": draw(st.sampled_from(pipes.PY)), "file": draw(st.sampled_from(pipes.FILES)),
                    "other": draw(st.integers(0, 5)), "mode": draw(st.sampled_from(["DROP", "EDIT"])), "flag": draw(st.booleans())})
    return {"docs": [d0] + others, "ops": ops}


def check_hist(case):
    import vptasks
    from lsst.pipe.base import Pipeline
    from lsst.pipe.base.pipeline import LabelSpecifier

    pool = []
    for d in case["docs"]:
        pool.append([Pipeline.fromString(pipes.dump(pipes.to_yaml_dict(d))), pipes.model(d)])
    labels = set()
    derived = False
    effective_after = False

    def verify(what):
        for n, (p, m) in enumerate(pool):
            got, want = pipes.observe(p), pipes.normal(m)
            for part in want:
                g, w = got[part], want[part]
                if part == "steps":
                    g, w = sorted(g), sorted(w)
                expect_eq(g, w, f"{part} of pipeline {n} after {what}")
            expect_eq(set(p.task_labels), set(m["tasks"]), f"task labels of pipeline {n} after {what}")
            expect_eq({k: sorted(v) for k, v in p.subsets.items()}, {k: sorted(v[0]) for k, v in m["subsets"].items()}, f"subsets of pipeline {n} after {what}")
            expect_eq(p.getInstrument(), m["instrument"], f"instrument of pipeline {n} after {what}")

    verify("parsing")
    for o in case["ops"]:
        k = o["op"]
        p, m = pool[o["who"] % len(pool)]
        new = copy.deepcopy(m)
        L, S = o["label"], o["subset"]
        refuse = None
        call = None
        if k == "add_task":
            if L in m["subsets"]:
                refuse = "label of a subset"
            new["tasks"][L] = ["vptasks.Task" + o["klass"], []]
            arg = getattr(vptasks, "Task" + o["klass"]) if o["flag"] else "vptasks.Task" + o["klass"]
            call = lambda: p.addTask(arg, L)
        elif k == "remove_task":
            if L not in m["tasks"]:
                refuse = "unknown task"
            else:
                found = p.findSubsetsWithLabel(L)
                expect_eq(set(found), {s for s, v in m["subsets"].items() if L in v[0]}, "findSubsetsWithLabel")
                for s in found:
                    new["subsets"][s][0].remove(L)
                del new["tasks"][L]

            def call():
                if L in m["tasks"]:
                    for s in p.findSubsetsWithLabel(L):
                        p.removeLabelFromSubset(s, L)
                p.removeTask(L)
        elif k == "to_subset":
            if L not in m["tasks"] or S not in m["subsets"]:
                refuse = "unknown"
            elif L not in new["subsets"][S][0]:
                new["subsets"][S][0].append(L)
            call = lambda: p.addLabelToSubset(S, L)
        elif k == "from_subset":
            if S not in m["subsets"] or L not in m["subsets"][S][0]:
                refuse = "unknown"
            else:
                new["subsets"][S][0].remove(L)
            call = lambda: p.removeLabelFromSubset(S, L)
        elif k == "new_subset":
            ls = set(x for x in o["labels"] if o["flag"] or x in m["tasks"])
            if S in m["subsets"] or S in m["tasks"] or ls - set(m["tasks"]):
                refuse = "bad subset"
            new["subsets"][S] = [sorted(ls), "text"]

            def call():
                given = set(ls)
                p.addLabeledSubset(S, "text", given)
                given.clear()  # the caller's set stays the caller's
        elif k == "drop_subset":
            if S not in m["subsets"]:
                refuse = "unknown"
            new["subsets"].pop(S, None)
            new["steps"] = [x for x in new["steps"] if x[0] != S]
            call = lambda: p.removeLabeledSubset(S)
        elif k == "find":
            if L not in m["tasks"]:
                refuse = "unknown"
            call = lambda: expect_eq(set(p.findSubsetsWithLabel(L)), {s for s, v in m["subsets"].items() if L in v[0]}, "findSubsetsWithLabel")
        elif k == "inst":
            new["instrument"] = pipes.INSTS[o["flag"]]
            call = lambda: p.addInstrument(pipes.INSTS[o["flag"]] if o["klass"] == "A" else [vptasks.InstOne, vptasks.InstTwo][o["flag"]])
        elif k in ("kv", "py", "file"):
            if L not in m["tasks"]:
                refuse = "unknown task"
            else:
                e = {"kv": ["kv", {o["key"]: o["val"]}], "py": ["python", o["py"]], "file": ["file", o["file"]]}[k]
                new["tasks"][L][1] = pipes.flat_join(new["tasks"][L][1], [e])
            call = {"kv": lambda: p.addConfigOverride(L, o["key"], copy.deepcopy(o["val"])), "py": lambda: p.addConfigPython(L, o["py"]),
                    "file": lambda: p.addConfigFile(L, o["file"])}[k]
        elif k == "param":
            new["parameters"]["p1"] = o["val"]
            call = lambda: p.addConfigOverride("parameters", "p1", copy.deepcopy(o["val"]))
        elif k == "param_bad":
            refuse = "not supported for parameters"
            call = (lambda: p.addConfigPython("parameters", o["py"])) if o["flag"] else (lambda: p.addConfigFile("parameters", o["file"]))
        elif k == "merge":
            q, qm = pool[o["other"] % len(pool)]
            if q is p:
                continue
            # a pipeline to merge needs at least consistent steps
            try:
                new = pipes.m_merge(m, [qm])
                derived = True
            except pipes.Rejected as exc:
                refuse = f"merge: {exc}"
            call = lambda: p.mergePipeline(q)
        elif k == "subset":
            want = [x for x in o["labels"] if o["flag"] or x in m["tasks"] or x in m["subsets"]]
            if not want:
                continue
            sm = None
            try:
                sm = pipes.m_subset(m, want, o["mode"])
            except pipes.Rejected as exc:
                refuse = f"subset: {exc}"
            given = set(want)

            def call():
                spec = LabelSpecifier(labels=given)
                q = p.subsetFromLabels(spec, Pipeline.PipelineSubsetCtrl[o["mode"]])
                if sm is not None:
                    if len(pool) < 5:
                        pool.append([q, sm])
                    else:
                        pool[-1] = [q, sm]
            derived = derived or sm is not None
        else:
            q = Pipeline.fromPipeline(p)
            if len(pool) < 5:
                pool.append([q, copy.deepcopy(m)])
            continue
        if refuse is not None:
            try:
                call()
            except ERRORS:
                labels.add("refused:" + k)
            else:
                raise Violation(f"{k} is accepted although it is invalid ({refuse}): {o}")
        else:
            call()
            pool_entry = next(e for e in pool if e[0] is p) if any(e[0] is p for e in pool) else None
            if pool_entry is not None:
                pool_entry[1] = new
            labels.add(k)
            if derived and k not in ("merge", "subset", "find"):
                effective_after = True
        if k == "subset":
            expect_eq(given, set(want), "the label set given to subsetFromLabels is changed")
        verify(f"{k} ({'refused' if refuse else 'done'}) {o}")
    # whatever was done, a pipeline with consistent steps and subsets can be written and read back
    for p, m in pool:
        q = Pipeline.fromString(str(p))
        got, want = pipes.observe(q), pipes.normal(m)
        for part in want:
            g, w = got[part], want[part]
            expect_eq(sorted(g) if part == "steps" else g, sorted(w) if part == "steps" else w, f"{part} after reading the edited pipeline back")
    return {"nontrivial": effective_after, "labels": sorted(labels)}


# ------------------------------------------------------------------------------------------------ graph level


@st.composite
def dag_cases(draw):
    n = draw(st.integers(1, 6))
    edges = []
    for j in range(1, n):
        k = draw(st.integers(0, min(2, j)))
        for i in draw(st.lists(st.integers(0, j - 1), min_size=k, max_size=k, unique=True)):
            edges.append([i, j])
    order = draw(st.permutations(range(n)))
    names = [f"t{i}" for i in range(n)]
    subs = {f"s{i}": sorted(draw(st.lists(st.sampled_from(names), max_size=4, unique=True))) for i in range(draw(st.integers(0, 3)))}
    steps = [[s, ["instrument", "detector"]] for s in subs if subs[s] and draw(st.booleans())]
    kind = draw(st.sampled_from(["labels", "range", "range", "begin", "end", "one", "bad_begin", "bad_end", "unknown"]))
    return {"n": n, "edges": edges, "order": list(order), "subsets": subs, "steps": steps, "kind": kind,
            "pick": draw(st.lists(st.sampled_from(names + sorted(subs)), min_size=1, max_size=3, unique=True)),
            "a": draw(st.sampled_from(names)), "b": draw(st.sampled_from(names)), "mode": draw(st.sampled_from(["DROP", "EDIT"])),
            "contract": draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from(names), st.booleans()), max_size=2)),
            "uri": draw(st.booleans())}


def check_dag(case):
    import networkx
    from lsst.pipe.base import Pipeline
    from lsst.pipe.base.pipeline import LabelSpecifier
    from lsst.pipe.base.pipelineIR import ContractError

    g = networkx.DiGraph()
    g.add_nodes_from(f"t{i}" for i in range(case["n"]))
    g.add_edges_from((f"t{i}", f"t{j}") for i, j in case["edges"])
    tasks = {}
    for i in case["order"]:
        ins = sorted(a for a, b in case["edges"] if b == i)
        cfg = {"connections.outp": f"d{i}", "connections.inp": f"d{ins[0]}" if ins else f"raw{i}", "i": i}
        if len(ins) > 1:
            cfg["connections.inp2"] = f"d{ins[1]}"
        tasks[f"t{i}"] = {"class": "vptasks.TaskA", "config": [{"file": [], "python": None, "rest": cfg}]}
    contracts = []
    bad = False
    for a, b, ok in case["contract"]:
        val = int(a[1:]) + int(b[1:])
        contracts.append([f"{a}.i + {b}.i == {val if ok else val + 1}", "told you so", [a, b]])
    doc = {"description": "dag", "instrument": None, "parameters": {}, "tasks": tasks, "contracts": contracts,
           "subsets": {s: {"labels": ls, "description": None, "as_list": False} for s, ls in case["subsets"].items()}, "steps": case["steps"]}
    m = pipes.model(doc)
    text = pipes.dump(pipes.to_yaml_dict(doc))
    p = Pipeline.fromString(text)

    def verify_graph(p, m, what):
        violated = [c for c in m["contracts"] if not eval(c[0], None, {f"t{i}": type("C", (), {"i": i}) for i in range(case["n"])})]
        if violated:
            try:
                p.to_graph()
            except ContractError as exc:
                expect("told you so" in str(exc), "the contract message is not reported", str(exc))
                return
            raise Violation(f"a pipeline with a violated contract {violated[0][0]} is accepted")
        pg = p.to_graph()
        expect_eq(set(pg.tasks), set(m["tasks"]), f"tasks of the graph ({what})")
        pos = {x: n for n, x in enumerate(pg.tasks)}
        for a, b in g.edges:
            if a in pos and b in pos:
                expect(pos[a] < pos[b], "graph order", a, b)
        expect_eq({s: sorted(v) for s, v in pg.task_subsets.items()}, {s: sorted(v[0]) for s, v in m["subsets"].items()}, f"subsets of the graph ({what})")
        expect_eq(list(pg.steps), [s[0] for s in m["steps"]], f"steps of the graph ({what})")
        expect_eq(pg.description, m["description"], "description of the graph")
        for label, node in pg.tasks.items():
            expect_eq(node.config.i, int(label[1:]), "config of the task")

    verify_graph(p, m, "whole")
    a, b, kind = case["a"], case["b"], case["kind"]
    frag = None
    up = lambda x: networkx.ancestors(g, x) | {x}
    down = lambda x: networkx.descendants(g, x) | {x}
    if kind in ("labels", "one", "unknown"):
        ls = set(case["pick"][:1]) if kind == "one" else set(case["pick"])
        if kind == "unknown":
            ls.add("nope")
        spec = LabelSpecifier(labels=set(ls))
        frag = ",".join(sorted(ls))
        want = ls
    else:
        begin = None if kind == "end" else "nope" if kind == "bad_begin" else a
        end = None if kind == "begin" else "nope" if kind == "bad_end" else b
        spec = LabelSpecifier(begin=begin, end=end)
        frag = f"{begin or ''}..{end or ''}"
        want = set(g)
        if begin and begin in g:
            want &= down(begin)
        if end and end in g:
            want &= up(end)

    def make():
        if case["uri"]:
            with scratch_dir() as t:
                f = os.path.join(t, "p.yaml")
                with open(f, "w") as s:
                    s.write(text)
                return Pipeline.from_uri(f + "#" + frag)
        return p.subsetFromLabels(spec, Pipeline.PipelineSubsetCtrl[case["mode"]])

    if kind in ("bad_begin", "bad_end", "unknown"):
        try:
            make()
        except ERRORS:
            pass
        else:
            raise Violation(f"unknown label accepted in {frag}")
        return {"nontrivial": True, "labels": [kind]}
    q = make()
    qm = pipes.m_subset(m, want, "DROP" if case["uri"] else case["mode"])
    got, wn = pipes.observe(q), pipes.normal(qm)
    for part in wn:
        expect_eq(got[part], wn[part], f"{part} of the pipeline restricted to {frag}")
    verify_graph(q, qm, frag)
    expect_eq(pipes.observe(p), pipes.normal(m), "the original pipeline is changed")
    return {"nontrivial": bool(case["edges"]), "labels": [kind, "uri" if case["uri"] else "memory"]}


FACETS = [Facet("history", hist_cases, check_hist, quick=2400, thorough=40000),
          Facet("subset", dag_cases, check_dag, quick=1600, thorough=20000)]
