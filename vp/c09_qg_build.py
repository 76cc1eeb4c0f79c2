"""C09: the built quantum graph contains exactly the runnable work."""
from __future__ import annotations

import json

import hypothesis.strategies as st
from lsst.pipe.base.all_dimensions_quantum_graph_builder import (
    AllDimensionsQuantumGraphBuilder,
    DatasetQueryConstraintVariant,
)

import core
import qgs
from core import Facet, expect, expect_eq

LEVEL = "exploration"
RULE = ("generated pipelines of 1-4 tasks over 15 dimension groups (observation, sky-map, sky-pixel; spatial and "
        "visit-exposure joins), generated dataset existence in two runs and a chain, where expressions, constraint "
        "variants and data ID tables; non-trivial if the model predicts at least one quantum together with at least one "
        "candidate that is dropped, or an error, or an edge between two quanta")
ASSUMPTIONS = ("rows of the one initial data ID query per independent part of the pipeline are taken from daf_butler",)


@st.composite
def cases(draw, worlds=("obs", "obs", "sky", "sky", "pixv", "pixt")):
    spec = draw(qgs.pipeline_specs(worlds=worlds))
    exist = draw(qgs.existence(spec))
    where = draw(st.sampled_from(qgs.WHERES[spec["world"]]))
    constraint = draw(st.sampled_from(("ALL", "ALL", "ALL", "OFF", "LIST")))
    if constraint == "LIST":
        names = sorted({c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("in", "prereq", "out")})
        constraint = draw(st.lists(st.sampled_from(names or ["nothing"]), min_size=1, max_size=2, unique=True))
    table = None
    if draw(st.integers(0, 7)) == 0:
        table = draw(st.sampled_from((["instrument", "detector"], ["instrument", "visit"], ["skymap", "tract"])))
        rows = {"detector": [["I1", 1], ["I2", 1], ["I1", 2]], "visit": [["I1", 101], ["I1", 102], ["I2", 101]],
                "tract": [["SK", 1], ["SK", 2]]}[table[1]]
        table = [table, draw(st.lists(st.sampled_from(rows), min_size=1, unique_by=tuple))]
    n = len(spec["tasks"])
    return {"spec": spec, "exist": exist, "where": where, "constraint": constraint, "table": table,
            "collections": list(draw(st.sampled_from(qgs.COLLECTION_CHOICES))),
            "order": draw(st.permutations(range(n))), "legacy": draw(st.integers(0, 3)) == 0,
            "prune": draw(st.tuples(*[st.integers(0, n - 1)] * 2).map(lambda p: [f"t{min(p)}", f"t{max(p)}"]))
            if draw(st.integers(0, 4)) == 0 else None}


def variant(c):
    return DatasetQueryConstraintVariant.fromExpression("all" if c == "ALL" else "off" if c == "OFF" else ",".join(c))


def check(case):
    import astropy.table

    spec = case["spec"]
    with core.scratch_dir() as d:
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"])
        tables, at = [], []
        if case["table"]:
            cols, rows = case["table"]
            used = set()
            for t in spec["tasks"]:
                used.update(qgs.conform(repo.universe, t["dk"]).names)
                for c in t["conns"]:
                    if c["kind"] in ("in", "out"):
                        used.update(c["dims"])
            model0 = qgs.Model(repo, spec, collections=case["collections"], output_run="out")
            ok = True
            for group in model0.components():
                dims = set()
                for l in group:
                    dims.update(qgs.conform(repo.universe, model0.tasks[l]["dk"]).names)
                    for c in model0.conns(l, "in", "out"):
                        dims.update(model0.dims[c["name"]].names)
                ok = ok and set(cols) <= dims
            if ok:
                tables = [(cols, rows)]
                at = [astropy.table.Table(rows=[tuple(r) for r in rows], names=cols)]
        model = qgs.Model(repo, spec, collections=case["collections"], output_run="out", where=case["where"],
                          constraint=case["constraint"], tables=tables, prune=case.get("prune"))
        model.unregistered = frozenset(n for n, r in case["exist"].items() if r is None)
        want = model.run()
        kw = dict(where=case["where"], dataset_query_constraint=variant(case["constraint"]), data_id_tables=at,
                  input_collections=case["collections"], output_run="out")
        if case.get("prune"):
            kw["prune_unanchored_quanta"] = tuple(case["prune"])

        def build():
            graph = qgs.make_graph(spec, case["order"])
            return AllDimensionsQuantumGraphBuilder(graph, repo.butler, **kw).finish(attach_datastore_records=False)

        labels = []
        got, err = qgs.build_outcome(build)
        labels.append(err or "ok")
        if err == "UnimplementedQueryError":
            # daf_butler cannot enumerate sky pixels without a region or a dataset to take them from
            expect(model.pixels_without_region, "the build needs a query that is not supported")
            return {"nontrivial": False, "labels": labels}
        if err is not None:
            expect(err in want.errors, f"the build failed with {err} but the model predicts "
                   f"{want.errors or 'success'}")
            return {"nontrivial": True, "labels": labels}
        expect(not getattr(want, "hard", False) and "QuantumGraphBuilderError" not in want.errors,
               f"the build succeeded but should have failed with {want.errors}")
        if model.undecided:
            return {"nontrivial": False, "labels": labels + ["undecided"]}
        if case.get("prune") and not want.errors and model.n_pruned:
            labels.append("pruned")
        quanta, ids, edges = qgs.compare_components(got, want, model)
        expect_eq(got.header.inputs, case["collections"], "input collections in the header")
        expect_eq(got.header.output_run, "out", "output run in the header")
        # the assembled graph
        qg = got.assemble()
        expect_eq(sorted(map(str, qg)), sorted(str(q.quantum_id) for q in quanta.values()), "assembled quanta")
        expect_eq(sorted(map(str, qg.quantum_only_xgraph.edges)), sorted(map(str, edges)), "assembled edges")
        execution = qg.build_execution_quanta()
        for k, q in quanta.items():
            info = qg.quantum_only_xgraph.nodes[q.quantum_id]
            expect_eq((info["task_label"], info["data_id"].required_values), k, "quantum info")
            expect(execution[q.quantum_id].dataId.hasRecords(), f"the data ID of {k} has no dimension records")
            expect_eq(execution[q.quantum_id].dataId.required_values, k[1], "data ID of the execution quantum")
        for t, by_id in qg.quanta_by_task.items():
            expect_eq(sorted(d.required_values for d in by_id), sorted(v for l, v in quanta if l == t), "quanta by task")
        if case["legacy"]:
            labels.append("legacy")
            graph = qgs.make_graph(spec, case["order"])
            old = AllDimensionsQuantumGraphBuilder(graph, repo.butler, **kw).build(attach_datastore_records=False)
            old_quanta = {}
            for node in old:
                old_quanta[node.taskDef.label, node.quantum.dataId.required_values] = node
            expect_eq(sorted(map(str, old_quanta)), sorted(map(str, quanta)), "quanta of the legacy graph")
            for k, node in old_quanta.items():
                for side, refs in (("in", node.quantum.inputs), ("out", node.quantum.outputs)):
                    exp = {}
                    for datasets in want.quanta[k][side].values():
                        exp.update({kk: r for kk, r in datasets.items()})
                    have = {(r.datasetType.name, r.dataId.required_values): r for rs in refs.values() for r in rs}
                    expect_eq(sorted(map(str, have)), sorted(map(str, exp)), f"legacy {side}puts of {k}")
                    for kk, r in exp.items():
                        expect_eq(have[kk].run, "out" if r == "new" else r.run, f"legacy run of {kk}")
        if edges:
            labels.append("edges")
        dropped = sum(model.candidates.values()) - len(quanta)
        if dropped:
            labels.append("dropped")
        if quanta:
            labels.append("quanta")
        labels.append(spec["world"])
        return {"nontrivial": bool(quanta and (dropped or edges)), "labels": labels}



# --------------------------------------------------------------------------------------------------------------
# prerequisite lookups


@st.composite
def prereq_cases(draw):
    kind = draw(st.sampled_from(("calib", "calib", "skypix", "skypix", "lookup")))
    if kind == "calib":
        T = draw(st.sampled_from(("v", "vd", "x", "xd")))
        D = draw(st.sampled_from([k for k in ("i", "d", "f") if qgs.subset(k, T)]))
    elif kind == "skypix":
        T = draw(st.sampled_from(("v", "vd", "p", "t", "d", "i", "pb")))
        D = draw(st.sampled_from(("h", "h", "k", "l") + (("ih", "ih") if T in ("v", "vd", "d", "i") else ()) + (("bh",) if T in ("v", "pb") else ())))
    else:
        T = draw(st.sampled_from(("v", "d", "xd")))
        D = draw(st.sampled_from(("d", "v", "x")))
    obs = T in ("v", "vd", "x", "xd", "d", "i")
    inputs = [draw(st.sampled_from(("v", "vd", "x", "xd", "d") if obs and kind != "skypix" else ("v", "vd", "d") if obs else ("p", "t")))]
    conns = [{"conn": f"in{j}", "kind": "in", "name": f"raw{j}", "sc": qgs.SC, "dk": k, "dims": qgs.sdims(k), "multiple": True,
              "minimum": 1, "defer_query": draw(st.booleans())} for j, k in enumerate(inputs)]
    conns.append({"conn": "out0", "kind": "out", "name": "out0_0", "sc": qgs.SC, "dk": T, "dims": qgs.sdims(T), "multiple": False})
    pq = {"conn": "pq", "kind": "prereq", "name": "pre0", "sc": qgs.SC, "dk": D, "dims": qgs.sdims(D), "multiple": True,
          "minimum": draw(st.sampled_from((0, 0, 1))), "calib": kind == "calib"}
    if kind == "lookup":
        pq["lookup"] = draw(st.sampled_from(("instrument", "instrument", "nothing")))
    conns.append(pq)
    second = draw(st.integers(0, 3)) == 0
    if second:
        conns.append({**pq, "conn": "pq2", "name": "pre1"})
    task = {"label": "t0", "dk": T, "dims": qgs.sdims(T), "conns": conns}
    bounds = draw(st.booleans())
    if bounds:
        if kind == "calib" and inputs[0] in ("v", "vd", "x", "xd"):
            task["temporal_bounds"] = draw(st.sampled_from((["in0"], ["in0", "out0"])))
            if draw(st.integers(0, 2)) == 0 and inputs[0] in ("v", "vd"):
                task["spatial_bounds"] = ["in0"]
        elif kind == "skypix" and inputs[0] in ("v", "vd", "p", "t"):
            task["spatial_bounds"] = ["in0"]
    if kind == "skypix" and T in ("d", "i") and "spatial_bounds" not in task:
        for c in conns:
            if c["kind"] == "prereq":  # unbounded search over the full sky: only a coarse pixelization is feasible
                c.update(dk="l", dims=qgs.sdims("l"))
    exist = {"raw0": {"in1": draw(qgs.MASKS), "in2": draw(st.sampled_from((0, 0xFFFF)))}, "pre0": {}}
    if second:
        exist["pre1"] = {}
    calib = []
    for name in [n for n in exist if n.startswith("pre")]:
        if kind == "calib":
            cuts = draw(st.sampled_from(([None, None], [None, 15, None], [None, 45, None], [40, None], [None, 5], [0, 15, 45, 65, 100],
                                         [22, 23], [30, 50])))
            for a, b in zip(cuts[:-1], cuts[1:]):
                if draw(st.integers(0, 4)):
                    calib.append([name, draw(qgs.MASKS), a, b])
        else:
            exist[name] = {"in1": draw(qgs.MASKS), "in2": draw(qgs.MASKS)}
    return {"spec": {"world": "obs", "tasks": [task]}, "exist": exist, "calib": calib,
            "where": draw(st.sampled_from(("", "instrument='I1'") if obs else ("", "skymap='SK' AND tract=1"))),
            "collections": draw(st.sampled_from((["in1", "cal"], ["in1", "in2", "cal"], ["cal", "in2", "in1"])))}


class PrereqModel(qgs.Model):
    """Adds validity ranges, sky pixels and lookup functions to the reference model."""

    def __init__(self, *args, case, certified, **kw):
        super().__init__(*args, **kw)
        self.case, self.certified = case, certified
        self.ambiguous = False
        self.used_bounds = False

    def record(self, element, data_id):
        key = (element,) + data_id.required_values
        if not hasattr(self, "_records"):
            self._records = {}
        if key not in self._records:
            self._records[key] = self.repo.butler.registry.expandDataId(data_id)
        return self._records[key]

    def prereqs(self, label, values, c, in_keys, out_keys, ref):
        task = self.tasks[label]
        q = self.record("q", self.coordinates[label, values])
        n, D = c["name"], self.dims[c["name"]]
        find = self.repo.find
        result = {}
        if c.get("lookup") == "nothing":
            return {}
        if c.get("lookup") == "instrument":
            for d in qgs.IDS[c["dk"]]:
                if d["instrument"] == q["instrument"]:
                    got = find(n, d.required_values, self.collections)
                    if got is not None:
                        result[n, d.required_values] = got
            return result
        names = {x["conn"]: x["name"] for x in task["conns"]}

        def bounded(which):
            wanted = {names[x] for x in task.get(which, ())}
            for k in sorted(in_keys):
                if k[0] in wanted and k in ref:
                    yield self.record(k[0], ref[k].dataId)
            for k in sorted(out_keys):
                if k[0] in wanted:
                    yield q
        if c.get("calib"):
            v = q.subset(D).required_values
            span = q.timespan
            for d in bounded("temporal_bounds"):
                self.used_bounds = True
                a, b = span.nsec
                a2, b2 = d.timespan.nsec
                span = type(span)(None, None, _nsec=(min(a, a2), max(b, b2)))
            hits = [r for name, vv, validity, r in self.certified if name == n and vv == v and validity.overlaps(span)]
            if len(hits) > 1:
                self.ambiguous = True
            for r in hits:
                result[n, v] = r
            return result
        (pixel,) = D.skypix
        pixelization = self.u.skypix_dimensions[pixel].pixelization
        regions = list(d.region for d in bounded("spatial_bounds"))
        if task.get("spatial_bounds"):
            self.used_bounds = True
        spatial = bool(qgs.conform(self.u, task["dk"]).spatial)
        if spatial:
            regions.append(q.region)
        if not spatial and not task.get("spatial_bounds"):
            allowed = None
        else:
            allowed = set()
            for r in regions:
                for a, b in pixelization.envelope(r):
                    allowed.update(range(a, b))
        for d in qgs.IDS[c["dk"]]:
            if any(d[x] != q[x] for x in ("instrument", "band") if x in D.names and x in q.dimensions.names):
                continue
            if allowed is None or d[pixel] in allowed:
                got = find(n, d.required_values, self.collections)
                if got is not None:
                    result[n, d.required_values] = got
        return result


def check_prereq(case):
    from lsst.daf.butler import CollectionType

    spec = case["spec"]
    with core.scratch_dir() as d:
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"])
        repo.butler.collections.register("cal", CollectionType.CALIBRATION)
        dk = {c["name"]: c["dk"] for c in spec["tasks"][0]["conns"]}
        certified = []
        for i, (name, mask, a, b) in enumerate(case["calib"]):
            run = f"calrun{i}"
            repo.butler.collections.register(run, CollectionType.RUN)
            refs = repo.add(name, dk[name], run, mask, calib=True)
            if refs:
                validity = qgs.span(a, b)
                repo.butler.registry.certify("cal", refs, validity)
                certified.extend((name, r.dataId.required_values, validity, r) for r in refs)
        model = PrereqModel(repo, spec, collections=[c for c in case["collections"] if c != "cal"], output_run="out",
                            where=case["where"], case=case, certified=certified)
        want = model.run()

        def build():
            graph = qgs.make_graph(spec)
            return AllDimensionsQuantumGraphBuilder(
                graph, repo.butler, where=case["where"], input_collections=case["collections"], output_run="out",
            ).finish(attach_datastore_records=False)

        labels = ["calib" if case["calib"] else "other"]
        if model.used_bounds:
            labels.append("bounds")
        if model.ambiguous:
            # more than one validity range: an error, or all of them; never a silent choice
            try:
                got = build()
            except Exception as exc:
                return {"nontrivial": True, "labels": labels + ["ambiguous", type(exc).__name__]}
            for q in got.quantum_datasets.values():
                key = (q.task_label, qgs.values_of(qgs.conform(model.u, spec["tasks"][0]["dk"]), q.data_coordinate))
                del key
            return {"nontrivial": True, "labels": labels + ["ambiguous-all"]}
        got, err = qgs.build_outcome(build)
        labels.append(err or "ok")
        if err is not None:
            if err == "UnimplementedQueryError":
                # daf_butler only joins regions to the common sky pixelization
                expect(dk["pre0"] in ("k", "l") and not spec["tasks"][0].get("spatial_bounds"), "unsupported query")
                return {"nontrivial": False, "labels": labels}
            expect(err in want.errors, f"the build failed with {err} but the model predicts {want.errors or 'success'}")
            return {"nontrivial": True, "labels": labels}
        expect(not want.errors, f"the build succeeded but should have failed with {want.errors}")
        quanta, ids, edges = qgs.compare_components(got, want, model)
        found = sum(len(r["in"]["pq"]) for r in want.quanta.values())
        return {"nontrivial": bool(found), "labels": labels}



# --------------------------------------------------------------------------------------------------------------
# dimensions related by geometry computed outside the database


@st.composite
def pixel_cases(draw):
    S = draw(st.sampled_from(("v", "vd", "p", "t", "pb", "pb", "tb", "h", "h")))
    K = draw(st.sampled_from(("k", "l", "hp")))
    B = K if S == "h" or not draw(st.integers(0, 1)) else S + "+" + K  # dimensions of the task that needs the pixels

    def conn(name, conn_name, kind, dk, **kw):
        c = {"conn": conn_name, "kind": kind, "name": name, "sc": qgs.SC, "dk": dk, "dims": qgs.sdims(dk)}
        if kind == "in":
            c.update(multiple=True, minimum=1, defer_query=False)
        else:
            c.update(multiple=False)
        c.update(kw)
        return c

    tasks = []
    source = "raw0"
    if draw(st.booleans()):
        tasks.append({"dk": S, "conns": [conn("raw0", "in0", "in", S), conn("a_out", "out0", "out", S)]})
        source = "a_out"
    extra = draw(st.booleans())
    b = {"dk": B, "conns": [conn(source, "in0", "in", S, minimum=draw(st.sampled_from((1, 1, 2)))), conn("b_out", "out0", "out", B)]}
    if extra:
        b["conns"].append(conn("raw1", "in1", "in", K, defer_query=True, minimum=draw(st.sampled_from((0, 1)))))
    tasks.append(b)
    last = draw(st.sampled_from((None, S, K)))
    if last:
        tasks.append({"dk": last, "conns": [conn("b_out", "in0", "in", B, minimum=draw(st.sampled_from((1, 2)) if last == S else st.just(1))),
                                            conn("c_out", "out0", "out", last)]})
    for i, t in enumerate(tasks):
        t["label"] = f"t{i}"
        t["dims"] = qgs.sdims(t["dk"])
    world = {"v": "pixv", "vd": "pixv"}.get(S, "pixt")
    exist = {"raw0": {"in1": draw(qgs.MASKS), "in2": draw(st.sampled_from((0, 0xFFFF)))}}
    if extra:
        exist["raw1"] = {"in1": draw(qgs.MASKS)}
    return {"spec": {"world": world, "tasks": tasks}, "exist": exist, "constraint": "ALL", "table": None,
            "where": draw(st.sampled_from(qgs.WHERES[world])) if S != "h" else "",
            "collections": ["in1", "in2"] if draw(st.booleans()) else ["in1"], "order": list(range(len(tasks))), "legacy": False}


# --------------------------------------------------------------------------------------------------------------
# graphs with one given data ID per set of dimensions


@st.composite
def trivial_cases(draw):
    spec = draw(qgs.pipeline_specs(worlds=("obs", "obs", "sky"), max_tasks=3, max_inputs=2))
    return {"spec": spec, "exist": draw(qgs.existence(spec)), "row": draw(st.integers(0, 50)),
            "collections": list(draw(st.sampled_from(qgs.COLLECTION_CHOICES))), "order": draw(st.permutations(range(len(spec["tasks"])))),
            "supply": draw(st.lists(st.sampled_from(("no", "no", "same", "other", "prereq", "foreign", "foreign")), min_size=1, max_size=4)),
            "mask": draw(qgs.MASKS), "modes": draw(st.integers(0, 3)) if draw(st.booleans()) else None}


class TrivialModel(qgs.Model):
    def query_rows(self, dims, where=""):
        if where == "ROW":
            return {self.row.subset(dims)}
        return super().query_rows(dims, where)


def check_trivial(case):
    from lsst.daf.butler import DatasetIdGenEnum, DatasetRef
    from lsst.pipe.base.trivial_quantum_graph_builder import TrivialQuantumGraphBuilder

    spec = case["spec"]
    case = dict(case, exist={n: runs or {} for n, runs in case["exist"].items()})  # unregistered input types may be refused
    with core.scratch_dir() as d:
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"])
        model = TrivialModel(repo, spec, collections=case["collections"], output_run="out", where="ROW", constraint="OFF")
        dims = model.u.empty
        keys = {}
        for t in spec["tasks"]:
            keys[t["dk"]] = qgs.conform(model.u, t["dk"])
            for c in t["conns"]:
                if c["kind"] in ("in", "out"):
                    keys[c["dk"]] = model.dims[c["name"]]
        for g in keys.values():
            dims = dims | g
        rows = sorted(model.query_rows(dims), key=lambda r: tuple(map(str, r.required_values))) if dims else [qgs.IDS["e"][0]]
        model.row = repo.butler.registry.expandDataId(rows[case["row"] % len(rows)])
        data_ids = {g: model.row.subset(g) for g in keys.values()}
        # input datasets given by the caller
        input_refs, supplied, foreign = {}, {}, set()
        names = sorted({c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("in", "prereq") and c["name"] not in model.producer})
        readers = {n: [(t["label"], c) for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("in", "prereq") and c["name"] == n] for n in names}
        flat = [x for c in case["collections"] for x in qgs.COLLECTION_FLAT[c]]
        for i, n in enumerate(names):
            how = case["supply"][i % len(case["supply"])]
            kinds = {c["kind"] for _, c in readers[n]}
            if how == "no" or case["exist"].get(n) is None or len(kinds) > 1:
                continue
            g = model.dims[n]
            if kinds == {"prereq"}:
                if how != "prereq":
                    continue
                for label, c in readers[n]:
                    t = model.tasks[label]
                    q = model.row.subset(qgs.conform(model.u, t["dk"]))
                    model.coordinates[label, q.required_values] = q
                    refs = list(model.prereqs(label, q.required_values, c, set(), set(), {}).values())
                    if refs:
                        input_refs.setdefault(label, {})[c["conn"]] = refs
                continue
            if how == "foreign":
                # dimensions for which the caller gives no data ID
                others = {t["dk"] for t in spec["tasks"]} | {c["dk"] for t in spec["tasks"] for c in t["conns"]
                                                            if c["kind"] in ("in", "out") and c["name"] != n}
                dk = readers[n][0][1]["dk"]
                if any(model.dims[m] == g for m in names if m != n) or any(qgs.conform(model.u, k) == g for k in others) or not g:
                    continue
                refs = [repo.find(n, v.required_values, case["collections"]) for j, v in enumerate(qgs.IDS[dk]) if (case["mask"] >> (j % 16)) & 1]
                refs = [r for r in refs if r is not None]
                data_ids.pop(g, None)
                foreign.add(n)
            else:
                where = flat if how == "same" else [r for r in qgs.RUNS if r not in flat[:1]]
                r = repo.find(n, model.row.subset(g).required_values, where)
                if r is None:
                    continue
                refs = [r]
            for label, c in readers[n]:
                input_refs.setdefault(label, {})[c["conn"]] = [r.expanded(repo.butler.registry.expandDataId(r.dataId)) for r in refs]
                supplied[label, n] = (refs, n in foreign)
        model.supplied = supplied
        want = model.run()
        outs = sorted({c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] == "out"})
        modes = {}
        if case["modes"] is not None and outs:
            for j, n in enumerate(outs):
                if (case["modes"] >> j) & 1:
                    modes[n] = DatasetIdGenEnum.DATAID_TYPE_RUN if j % 2 == 0 else DatasetIdGenEnum.DATAID_TYPE

        def build():
            graph = qgs.make_graph(spec, case["order"])
            return TrivialQuantumGraphBuilder(graph, repo.butler, data_ids=data_ids, input_refs=input_refs, dataset_id_modes=modes,
                                              input_collections=case["collections"], output_run="out").finish(attach_datastore_records=False)

        got, err = qgs.build_outcome(build)
        labels = [err or "ok"] + (["foreign"] if foreign else []) + (["supplied"] if supplied else [])
        if err is not None:
            expect(err in want.errors, f"the build failed with {err} but the model predicts {want.errors or 'success'}")
            return {"nontrivial": False, "labels": labels}
        expect(not getattr(want, "hard", False) and "QuantumGraphBuilderError" not in want.errors, f"the build succeeded but should have failed with {want.errors}")
        if model.undecided:
            return {"nontrivial": False, "labels": labels + ["undecided"]}
        qgs.compare_components(got, want, model)
        for q in got.quantum_datasets.values():
            for conn, ds in q.outputs.items():
                for x in ds:
                    if x.dataset_type_name in modes:
                        g = model.dims[x.dataset_type_name]
                        node = got.pipeline_graph.dataset_types[x.dataset_type_name]
                        ref = DatasetRef(node.dataset_type, model.row.subset(g), run="out", id_generation_mode=modes[x.dataset_type_name])
                        expect_eq(x.dataset_id, ref.id, f"ID of {x.dataset_type_name} generated from its data ID")
        return {"nontrivial": len(want.quanta) > 1 or bool(supplied), "labels": labels}


FACETS = [Facet("trivial", trivial_cases, check_trivial, quick=240, thorough=6000, setup=qgs.template),
          Facet("build", cases, check, quick=560, thorough=12000, setup=qgs.template),
          Facet("prerequisites", prereq_cases, check_prereq, quick=240, thorough=6000, setup=qgs.template),
          Facet("pixels", pixel_cases, check, quick=160, thorough=3000, setup=qgs.template)]
