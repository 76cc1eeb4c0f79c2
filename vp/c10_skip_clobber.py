"""C10: skip-existing, clobber and retained dataset types when building over earlier outputs."""
from __future__ import annotations

import hypothesis.strategies as st
from lsst.daf.butler import CollectionType, DatasetType
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder

import core
import qgs
from core import Facet, expect, expect_eq

LEVEL = "exploration"
RULE = ("generated pipelines of 1-5 tasks over earlier runs with independently generated metadata, log, output and "
        "init-output existence, skip collections (runs, chains, the output run itself in any position, missing), clobber, "
        "retained dataset types (names and globs); non-trivial if at least one quantum is skipped, forced to rerun, or an "
        "existing output is in the way")
ASSUMPTIONS = ("the mark of an earlier success is the task metadata dataset of the quantum",)

FLAT = {"prevC": ("prev2", "prev1"), "all": ("out", "prev1")}


@st.composite
def cases(draw):
    spec = draw(qgs.pipeline_specs(max_tasks=5, scalar_errors=False, prereq=draw(st.integers(0, 3)) == 0,
                                   worlds=("obs", "obs", "sky", "pixt"), max_inputs=2))
    exist = {}
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq", "init_in") and c["name"] not in exist:
                exist[c["name"]] = {"in1": 0xFFFF if draw(st.integers(0, 3)) else draw(qgs.MASKS)}
    made = {c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("out", "init_out")}
    exist = {n: r for n, r in exist.items() if n not in made}
    history = []
    for run in ("prev1", "prev2", "out"):
        present = draw(st.integers(0, 4))
        if present == 0:
            continue  # the run does not exist
        entry = {"run": run, "tasks": {}}
        for t in spec["tasks"]:
            k = draw(st.integers(0, 5))
            if k <= 1:
                continue
            ok = 0xFFFF if k == 2 else draw(qgs.MASKS)
            record = {"metadata": ok, "outs": {}, "init": {}}
            record["log"] = ok if draw(st.integers(0, 2)) else draw(qgs.MASKS)
            for c in t["conns"]:
                if c["kind"] == "out":
                    record["outs"][c["name"]] = (0xFFFF if draw(st.integers(0, 2)) else draw(qgs.MASKS))
                elif c["kind"] == "init_out":
                    record["init"][c["name"]] = bool(draw(st.integers(0, 14)))
            record["init"][t["label"] + "_config"] = bool(draw(st.integers(0, 14)))
            entry["tasks"][t["label"]] = record
        entry["packages"] = draw(st.booleans())
        history.append(entry)
    # keep outputs consistent with the data IDs a quantum of the earlier run could have had: any subset is allowed
    existing = [h["run"] for h in history]
    choices = [[]] + [[r] for r in existing] + [[a, b] for a in existing for b in existing if a != b]
    if "prev1" in existing and "prev2" in existing:
        choices += [["prevC"], ["out", "prevC"] if "out" in existing else ["prevC"], ["prevC", "out"] if "out" in existing else ["prevC"]]
    if "out" in existing and "prev1" in existing:
        choices.append(["all"])
    choices += [["missing"]]
    skip_in = draw(st.sampled_from(choices[1:] * 3 + choices[:1]))
    retained = None
    if skip_in and draw(st.booleans()):
        names = sorted({c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] == "out"})
        # out{task}_{index}; a bare "*" means that everything is retained
        retained = draw(st.lists(st.sampled_from(names + ["out*_0", "out0_*", "out[12]_*", "nothing", "none*"]), max_size=3, unique=True))
        if draw(st.integers(0, 9)) == 0:
            retained = ["*"]
    n = len(spec["tasks"])
    return {"spec": spec, "exist": exist, "history": history, "skip_in": skip_in, "retained": retained,
            "clobber": draw(st.integers(0, 2)) > 0, "where": draw(st.sampled_from(("",) + qgs.WHERES[spec["world"]])),
            "inputs": draw(st.sampled_from((["in1"], ["in1"], ["in1", "prev1"], ["prevC", "in1"]))),
            "order": draw(st.permutations(range(n)))}


def retained_names(patterns, names):
    import fnmatch

    if not patterns or "*" in patterns:  # documented: an empty list means that everything is retained
        return None
    return {n for n in names for p in patterns if fnmatch.fnmatchcase(n, p)}


def setup_history(repo, case):
    spec = case["spec"]
    b = repo.butler
    for h in case["history"]:
        run = h["run"]
        b.collections.register(run, CollectionType.RUN)
        for t in spec["tasks"]:
            rec = h["tasks"].get(t["label"])
            if rec is None:
                continue

            def put(name, dk, mask, sc):
                dt = DatasetType(name, repo.universe.conform(qgs.DIMS[dk]), sc)
                b.registry.registerDatasetType(dt)
                ids = [d for i, d in enumerate(qgs.IDS[dk]) if (mask >> (i % 16)) & 1]
                if ids:
                    table = repo.exists.setdefault((name, run), {})
                    for ref in b.registry.insertDatasets(dt, ids, run=run):
                        table[ref.dataId.required_values] = ref

            label = t["label"]
            put(label + "_metadata", t["dk"], rec["metadata"], "TaskMetadata")
            put(label + "_log", t["dk"], rec["log"], "ButlerLogRecords")
            dk = {c["name"]: c.get("dk", "e") for c in t["conns"]}
            for name, mask in rec["outs"].items():
                put(name, dk[name], mask, qgs.SC)
            for name, there in rec["init"].items():
                put(name, "e", int(there), "Config" if name.endswith("_config") else qgs.SC)
        if h["packages"]:
            dt = DatasetType("packages", repo.universe.empty, "Packages")
            b.registry.registerDatasetType(dt)
            (ref,) = b.registry.insertDatasets(dt, [{}], run=run)
            repo.exists["packages", run] = {(): ref}
    runs = {h["run"] for h in case["history"]}
    for chain, members in FLAT.items():
        if set(members) <= runs:
            b.collections.register(chain, CollectionType.CHAINED)
            b.collections.redefine_chain(chain, list(members))


def check(case):
    spec = case["spec"]
    for k, v in FLAT.items():
        qgs.COLLECTION_FLAT[k] = v
    with core.scratch_dir() as d:
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"])
        setup_history(repo, case)
        runs = {h["run"] for h in case["history"]}
        inputs = [c for c in case["inputs"] if c in ("in1",) or set(FLAT.get(c, (c,))) <= runs]
        names = {c["name"] for t in spec["tasks"] for c in t["conns"]} | {
            t["label"] + s for t in spec["tasks"] for s in ("_metadata", "_log", "_config")}
        missing = case["skip_in"] == ["missing"]
        model = qgs.Model(repo, spec, collections=inputs, output_run="out", where=case["where"],
                          skip_in=[] if missing else case["skip_in"], clobber=case["clobber"] and "out" in runs,
                          retained=retained_names(case["retained"], names))
        want = model.run()
        kw = dict(where=case["where"], input_collections=inputs, output_run="out", skip_existing_in=case["skip_in"],
                  clobber=case["clobber"])
        if case["retained"] is not None:
            kw["retained_dataset_types"] = case["retained"]

        def build():
            graph = qgs.make_graph(spec, case["order"])
            return AllDimensionsQuantumGraphBuilder(graph, repo.butler, **kw).finish(attach_datastore_records=False)

        labels = []
        decisions = getattr(model, "decisions", {})
        skipped = {q for q, s in decisions.items() if s}
        if skipped:
            labels.append("skipped")
        if getattr(model, "forced", None):
            labels.append("forced")
        got, err = qgs.build_outcome(build)
        labels.append(err or "ok")
        if err == "UnimplementedQueryError":
            expect(model.pixels_without_region, "the build needs a query that is not supported")
            return {"nontrivial": False, "labels": labels}
        if err is not None:
            expect(err in want.errors, f"the build failed with {err} but the model predicts {want.errors or 'success'}")
            return {"nontrivial": bool(skipped) or err == "OutputExistsError", "labels": labels}
        expect(not want.errors, f"the build succeeded but should have failed with {want.errors}")
        quanta, ids, edges = qgs.compare_components(got, want, model)
        reused = sum(1 for r in want.quanta.values() for d in r["in"].values() for k, v in d.items()
                     if v != "new" and k[0] in model.producer)
        in_way = sum(1 for r in want.quanta.values() for d in r["out"].values() for v in d.values() if v != "new")
        if reused:
            labels.append("reused")
        if in_way:
            labels.append("in-the-way")
        # the packages dataset
        (glob,) = [q for q in got.init_quanta.root if q.task_label == ""]
        (pk,) = glob.outputs["packages"]
        there = repo.find("packages", (), ["out"])
        expect_eq(pk.run, "out", "run of the packages dataset")
        if there is not None:
            expect_eq(pk.dataset_id, there.id, "ID of an existing packages dataset")
        # nothing was written
        for name, run in list(repo.exists):
            n = len(list(repo.butler.registry.queryDatasets(name, collections=[run])))
            expect_eq(n, len(repo.exists[name, run]), "datasets in the repository after building")
        return {"nontrivial": bool(skipped or reused or in_way), "labels": labels}


@st.composite
def retained_cases(draw):
    """Mostly complete earlier run of a connected pipeline, with some dataset types not retained."""
    n = draw(st.integers(2, 6))
    menu = draw(st.sampled_from((("vd", "v", "d", "i"), ("pb", "p", "t", "tb"), ("vd", "v", "n", "x"))))
    tasks, made = [], []
    for k in range(n):
        T = draw(st.sampled_from(menu))
        conns = []
        sources = draw(st.lists(st.sampled_from(made[-3:]), min_size=1, max_size=2, unique=True)) if made else []
        if not made or draw(st.integers(0, 5)) == 0:
            sources = sources + [("raw0", menu[0])]
        for j, (name, D) in enumerate(sources):
            fits = qgs.subset(D, T)
            conns.append({"conn": f"in{j}", "kind": "in", "name": name, "sc": qgs.SC, "dk": D, "dims": qgs.sdims(D),
                          "multiple": not fits, "minimum": draw(st.sampled_from((1, 1, 0))), "defer_query": False,
                          "defer_load": False})
        for j in range(draw(st.sampled_from((1, 1, 2)))):
            conns.append({"conn": f"out{j}", "kind": "out", "name": f"out{k}_{j}", "sc": qgs.SC, "dk": T,
                          "dims": qgs.sdims(T), "multiple": False})
            made.append((f"out{k}_{j}", T))
        tasks.append({"label": f"t{k}", "dk": T, "dims": qgs.sdims(T), "conns": conns})
    names = [m[0] for m in made]
    kept = draw(st.lists(st.sampled_from(names), max_size=n, unique=True))
    run = draw(st.sampled_from(("prev1", "out")))
    entry = {"run": run, "tasks": {}, "packages": True}
    bad = set(draw(st.lists(st.sampled_from(range(n)), max_size=2, unique=True)))
    for k, t in enumerate(tasks):
        ok = 0xFFFF if k not in bad else draw(qgs.MASKS)
        entry["tasks"][t["label"]] = {
            "metadata": ok, "log": 0xFFFF, "init": {t["label"] + "_config": True},
            "outs": {c["name"]: (ok if draw(st.integers(0, 7)) else draw(qgs.MASKS)) if c["name"] in kept else
                     draw(st.sampled_from((0, 0, 0, 0xFFFF))) for c in t["conns"] if c["kind"] == "out"}}
    return {"spec": {"world": "obs", "tasks": tasks}, "exist": {"raw0": {"in1": 0xFFFF}}, "history": [entry], "skip_in": [run],
            "retained": (kept or ["nothing"]) + (["raw0"] if draw(st.booleans()) else []), "clobber": draw(st.integers(0, 3)) > 0,
            "where": "" if menu[0] == "pb" or draw(st.booleans()) else "instrument='I1' AND detector=1" if "d" in menu else "",
            "inputs": ["in1"], "order": draw(st.permutations(range(n)))}


FACETS = [Facet("history", cases, check, quick=360, thorough=8000, setup=qgs.template),
          Facet("retained", retained_cases, check, quick=280, thorough=6000, setup=qgs.template)]
