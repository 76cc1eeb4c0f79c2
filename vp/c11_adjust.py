"""C11: task-level adjustment of quanta, at build time and at run time."""
from __future__ import annotations

import hypothesis.strategies as st
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder

import core
import qgs
import vptasks
from core import Facet, expect, expect_eq

LEVEL = "exploration"
RULE = ("generated pipelines of 1-4 tasks whose connections drop inputs or outputs, pair inputs with outputs, raise "
        "NoWorkFound, remove all outputs, remove or merge quanta; run-time cases remove any subset of the stored inputs of "
        "a quantum first; non-trivial if an adjustment or a missing input changed at least one quantum")
ASSUMPTIONS = ("rows of the initial data ID query are taken from daf_butler",)


@st.composite
def rules_for(draw, t):
    conns = [c for c in t["conns"] if c["kind"] in ("in", "prereq", "out")]
    ins = [c for c in conns if c["kind"] != "out"]
    outs = [c for c in conns if c["kind"] == "out"]
    pairs = [(a, b) for a in ins for b in outs if a["dk"] == b["dk"]]
    rules = []
    for _ in range(draw(st.integers(1, 2))):
        op = draw(st.sampled_from(("keep-in", "keep-in", "keep-out", "zip", "nowork", "nooutputs", "reverse")))
        m = draw(st.integers(2, 3))
        r = draw(st.integers(0, m - 1))
        if op == "keep-in" and ins:
            rules.append({"op": "keep", "conn": draw(st.sampled_from(ins))["conn"], "m": m, "r": r})
        elif op == "keep-out":
            rules.append({"op": "keep", "conn": draw(st.sampled_from(outs))["conn"], "m": m, "r": r})
        elif op == "zip" and pairs:
            a, b = draw(st.sampled_from(pairs))
            rules.append({"op": "zip", "a": a["conn"], "b": b["conn"]})
        elif op == "nowork":
            rules.append({"op": "nowork", "m": m, "r": r})
        elif op == "nooutputs":
            rules.append({"op": "nooutputs", "m": m, "r": r})
        elif op == "reverse" and ins:
            rules.append({"op": "reverse", "conn": draw(st.sampled_from(ins))["conn"]})
    return rules


@st.composite
def cases(draw):
    spec = draw(qgs.pipeline_specs(max_tasks=4, scalar_errors=False, worlds=("obs", "obs", "sky", "pixt"), max_inputs=3))
    for t in spec["tasks"]:
        k = draw(st.integers(0, 3))
        if k == 0:
            continue
        if k == 3:
            ops = []
            for _ in range(draw(st.integers(1, 2))):
                m = draw(st.integers(2, 3))
                if draw(st.booleans()):
                    ops.append({"op": "remove", "m": m, "r": draw(st.integers(0, m - 1))})
                else:
                    ops.append({"op": "merge", "m": m})
                    for c in t["conns"]:  # a merged quantum has several datasets per connection
                        if c["kind"] in ("in", "out", "prereq"):
                            c["multiple"] = True
            t["adjust_all"] = ops
        if k != 3 or draw(st.booleans()):
            t["adjust"] = draw(rules_for(t))
    exist = {}
    made = {c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("out", "init_out")}
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq", "init_in") and c["name"] not in exist and c["name"] not in made:
                exist[c["name"]] = {"in1": 0xFFFF if draw(st.integers(0, 2)) else draw(qgs.MASKS)}
    n = len(spec["tasks"])
    return {"spec": spec, "exist": exist, "where": draw(st.sampled_from(("",) + qgs.WHERES[spec["world"]])),
            "order": draw(st.permutations(range(n)))}


class AdjustModel:
    def __init__(self, spec):
        self.tasks = {t["label"]: t for t in spec["tasks"]}
        self.changed = 0
        self.inputless = False

    def one(self, label, values, record):
        t = self.tasks[label]
        rules = t.get("adjust")
        if not rules:
            return
        inputs = {k: [(key[1], key) for key in sorted(d)] for k, d in record["in"].items()}
        outputs = {k: [(key[1], key) for key in sorted(d)] for k, d in record["out"].items() if not k.startswith("_")}
        new_in, new_out, stop = vptasks.apply_adjust(rules, values, inputs, outputs)
        if stop:
            record["no_work"] = True
            self.changed += 1
            return
        record["all_out"] = {k: dict(d) for k, d in record["out"].items()}
        removed = set()
        for conn, items in new_in.items():
            keep = {x[1] for x in items}
            if len(keep) < len(record["in"][conn]):
                self.changed += 1
            record["in"][conn] = {k: v for k, v in record["in"][conn].items() if k in keep}
        for conn, items in new_out.items():
            keep = {x[1] for x in items}
            removed |= set(record["out"][conn]) - keep
            record["out"][conn] = {k: v for k, v in record["out"][conn].items() if k in keep}
        if removed:
            self.changed += 1
        record["removed_outputs"] = removed
        if new_out and not any(d for k, d in record["out"].items() if not k.startswith("_")):
            record["empty"] = True
        if new_in and not any(record["in"].values()):
            record["inputless"] = True

    def all(self, label, records):
        t = self.tasks[label]
        gone = set()
        for r in t.get("adjust_all", ()):
            ids = sorted(records)
            if r["op"] == "remove":
                for v in ids:
                    if vptasks.crc(v) % r["m"] == r["r"]:
                        for d in records[v]["out"].values():
                            gone.update(d)
                        del records[v]
                        self.changed += 1
            else:
                for i in range(0, len(ids), r["m"]):
                    first = records[ids[i]]
                    for v in ids[i + 1:i + r["m"]]:
                        rec = records.pop(v)
                        self.changed += 1
                        for conn, d in rec["in"].items():
                            first["in"][conn].update(d)
                        for conn, d in rec["out"].items():
                            if conn.startswith("_"):
                                gone.update(d)
                            else:
                                first["out"][conn].update(d)
        return gone


def check(case):
    spec = case["spec"]
    with core.scratch_dir() as d:
        repo = qgs.Repo(d)
        qgs.setup_existence(repo, spec, case["exist"])
        hook = AdjustModel(spec)
        model = qgs.Model(repo, spec, collections=["in1"], output_run="out", where=case["where"],
                          adjust=hook.one, adjust_all=hook.all)
        want = model.run()

        def build():
            graph = qgs.make_graph(spec, case["order"])
            return AllDimensionsQuantumGraphBuilder(
                graph, repo.butler, where=case["where"], input_collections=["in1"], output_run="out",
            ).finish(attach_datastore_records=False)

        labels = ["changed"] if hook.changed else []
        got, err = qgs.build_outcome(build)
        labels.append(err or "ok")
        if err == "UnimplementedQueryError":
            expect(model.pixels_without_region, "the build needs a query that is not supported")
            return {"nontrivial": False, "labels": labels}
        if err is not None:
            expect(err in want.errors, f"the build failed with {err} but the model predicts {want.errors or 'success'}")
            return {"nontrivial": hook.changed > 0, "labels": labels}
        expect(not getattr(want, "hard", False), f"the build succeeded but should have failed with {want.errors}")
        qgs.compare_components(got, want, model)
        got.assemble().build_execution_quanta()
        for t in spec["tasks"]:
            if "adjust_all" in t:
                labels.append("all")
        return {"nontrivial": hook.changed > 0 and bool(want.quanta), "labels": labels}


@st.composite
def runtime_cases(draw):
    import execs

    return draw(execs.one_task(adjust=True))


def check_runtime(case):
    import execs

    with core.scratch_dir() as d:
        try:
            h = execs.OneQuantum(d, case)
        except Exception as exc:
            if type(exc).__name__ in qgs.ERROR_NAMES:
                return {"nontrivial": False, "labels": ["not built"]}
            raise
        if h.quantum is None:
            return {"nontrivial": False, "labels": ["no quanta"]}
        action = {"do": "ok"}
        o = execs.predict(h, existing=set(), action=action)
        execs.run_and_compare(h, h.executor(), action, o, {})
        return {"nontrivial": bool(getattr(o, "readjusted", False)), "labels": [o.kind, case["mode"]]}


FACETS = [Facet("runtime", runtime_cases, check_runtime, quick=320, thorough=6000, setup=qgs.template),
          Facet("build", cases, check, quick=400, thorough=8000, setup=qgs.template)]
