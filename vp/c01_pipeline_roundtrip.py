"""C01: pipeline definitions survive being written and read back."""
from __future__ import annotations

import copy
import os
import pickle

import pipes
import yaml
from core import Facet, Violation, expect, expect_eq, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C01"
TECHNIQUE = "property-based testing (Hypothesis): YAML round trips against a document model"
RULE = ("random pipeline documents (descriptions and values that need YAML quoting, multi-block configs with files, python "
        "and key/values, parameters, contracts with messages, labeled subsets with and without descriptions, steps), "
        "optionally edited through the API, written as a string and to a file and read back; and pairs of documents "
        "differing in one section. Non-trivial: at least two tasks and at least two of contracts, subsets, steps, "
        "parameters, multi-block configs present, or a pair that differs.")


def add_data_ids(draw, d):
    """Sometimes restrict config blocks to a data ID (such a pipeline can be written and compared, not run)."""
    for t in d["tasks"].values():
        for b in t["config"] or []:
            if draw(st.integers(0, 11)) == 0:
                b["rest"]["dataId"] = {"visit": draw(st.integers(1, 2))}


@st.composite
def rt_cases(draw):
    d = draw(pipes.docs(min_tasks=0))
    add_data_ids(draw, d)
    edits = []
    if d["tasks"]:
        for _ in range(draw(st.integers(0, 3))):
            edits.append([draw(st.sampled_from(["kv", "py", "file", "param", "subset", "inst"])),
                          draw(st.sampled_from(sorted(d["tasks"]))), draw(st.sampled_from(pipes.KEYS)),
                          draw(pipes.VALUES), draw(st.sampled_from(pipes.PY)), draw(st.sampled_from(pipes.FILES))])
    return {"doc": d, "edits": edits, "flip": draw(st.booleans())}


def override_order(text):
    """The order in which the overrides of each config block are listed (they are applied in that order)."""
    out = {}
    for label, t in (yaml.safe_load(text).get("tasks") or {}).items():
        cfg = t.get("config") or [] if isinstance(t, dict) else []
        out[label] = [[k for k in c if k not in ("file", "python", "dataId")] for c in ([cfg] if isinstance(cfg, dict) else cfg)]
    return out


def apply_edits(p, m, edits):
    for kind, label, key, val, py, f in edits:
        if kind == "kv":
            p.addConfigOverride(label, key, copy.deepcopy(val))
            m["tasks"][label][1] = pipes.flat_join(m["tasks"][label][1], [["kv", {key: val}]])
        elif kind == "py":
            p.addConfigPython(label, py)
            m["tasks"][label][1].append(["python", py])
        elif kind == "file":
            p.addConfigFile(label, f)
            m["tasks"][label][1].append(["file", f])
        elif kind == "param":
            p.addConfigOverride("parameters", "p2", copy.deepcopy(val))
            m["parameters"]["p2"] = val
        elif kind == "subset":
            if "extra" not in m["subsets"]:
                p.addLabeledSubset("extra", "added later", {label})
                m["subsets"]["extra"] = [[label], "added later"]
        else:
            p.addInstrument("vptasks.InstTwo")
            m["instrument"] = "vptasks.InstTwo"


def check_rt(case):
    from lsst.pipe.base import Pipeline

    d = copy.deepcopy(case["doc"])
    for task in d["tasks"].values():
        for b in task["config"] or []:
            b["rest"] = {k: b["rest"][k] for k in sorted(b["rest"], reverse=case.get("flip", False))}
    m = pipes.model(d)
    text = pipes.dump(pipes.to_yaml_dict(d))
    p = Pipeline.fromString(text)
    apply_edits(p, m, case["edits"])
    want = pipes.normal(m)
    expect_eq(set(p.task_labels), set(m["tasks"]), "task labels after parsing")
    expect_eq({k: sorted(v) for k, v in p.subsets.items()}, {k: sorted(v[0]) for k, v in m["subsets"].items()}, "subsets after parsing")
    expect_eq(p.getInstrument(), m["instrument"], "instrument after parsing")
    expect_eq(len(p), len(m["tasks"]), "number of tasks")
    expect_eq(pipes.observe(p), want, "rendered pipeline")

    order = override_order(str(p))
    if not case["edits"]:
        expect_eq(order, override_order(text), "order of the overrides of a parsed pipeline")

    def same(q, how):
        expect_eq(override_order(str(q)), order, f"order of overrides after {how}")
        expect_eq(pipes.observe(q), want, f"pipeline after {how}")
        expect_eq(set(q.task_labels), set(m["tasks"]), f"task labels after {how}")
        expect_eq({k: sorted(v) for k, v in q.subsets.items()}, {k: sorted(v[0]) for k, v in m["subsets"].items()}, f"subsets after {how}")
        expect_eq(q.getInstrument(), m["instrument"], f"instrument after {how}")
        expect((p == q) is True, f"pipeline does not equal itself after {how}")
        expect((q == p) is True, f"pipeline does not equal itself after {how} (reversed)")

    same(p, "nothing")
    same(Pipeline.fromString(str(p)), "string round trip")
    same(Pipeline.fromPipeline(p), "fromPipeline")
    same(copy.deepcopy(p), "deepcopy")
    same(pickle.loads(pickle.dumps(p)), "pickling")
    with scratch_dir() as t:
        f = os.path.join(t, "p.yaml")
        p.write_to_uri(f)
        same(Pipeline.from_uri(f), "file round trip")
        same(Pipeline.fromFile(f), "fromFile")
        expect_eq(pipes.observe_text(open(f).read()), want, "file contents")
    parts = sum(map(bool, (d["contracts"], d["subsets"], d["steps"], d["parameters"],
                           any(t["config"] and len(t["config"]) > 1 for t in d["tasks"].values()))))
    labels = [k for k in ("contracts", "subsets", "steps", "parameters") if d[k]] + (["edited"] if case["edits"] else [])
    return {"nontrivial": len(d["tasks"]) >= 2 and parts >= 2, "labels": labels}


@st.composite
def differ_cases(draw):
    d = draw(pipes.docs(min_tasks=1))
    add_data_ids(draw, d)
    e = copy.deepcopy(d)
    opts = ["instrument", "parameters", "newtask", "class", "config", "newcontract", "newsubset"]
    if d["contracts"]:
        opts += ["contract", "contract", "msg", "msg"]
    if d["subsets"]:
        opts += ["subset", "subset", "sdesc", "dropsubset", "newstep"]
    if d["steps"]:
        opts += ["step", "step", "stepdims", "stepdims"]
    what = draw(st.sampled_from(opts))
    label = draw(st.sampled_from(sorted(d["tasks"])))
    if what == "instrument":
        e["instrument"] = draw(st.sampled_from([None] + pipes.INSTS))
    elif what == "parameters":
        e["parameters"][draw(st.sampled_from(pipes.PARAMS))] = draw(pipes.VALUES)
    elif what == "newtask":
        free = [x for x in pipes.LABELS if x not in d["tasks"]]
        if free:
            e["tasks"][draw(st.sampled_from(free))] = draw(pipes.task_defs())
    elif what == "class":
        t = e["tasks"][label]
        t["class"] = "vptasks.TaskB" if t["class"].endswith("A") else "vptasks.TaskA"
    elif what == "config":
        cfg = e["tasks"][label]["config"] or []
        op = draw(st.sampled_from(["add", "drop", "reverse", "kv", "dataid"]))
        if op == "add" or not cfg:
            cfg.append(draw(pipes.blocks()))
        elif op == "drop":
            cfg.pop(draw(st.integers(0, len(cfg) - 1)))
        elif op == "reverse":
            cfg.reverse()
        elif op == "dataid":
            cfg[0]["rest"]["dataId"] = {"visit": draw(st.integers(1, 2))}
        else:
            cfg[-1]["rest"][draw(st.sampled_from(pipes.KEYS))] = draw(pipes.VALUES)
        e["tasks"][label]["config"] = cfg or None
    elif what == "newcontract":
        e["contracts"].append(draw(pipes.contracts(sorted(d["tasks"]))))
    elif what == "contract":
        e["contracts"].pop(draw(st.integers(0, len(e["contracts"]) - 1)))
    elif what == "msg":
        e["contracts"][0][1] = draw(st.sampled_from([None, "other", "must agree"]))
    elif what == "newsubset":
        e["subsets"]["s9"] = {"labels": [label], "description": None, "as_list": False}
    elif what == "subset":
        s = draw(st.sampled_from(sorted(d["subsets"])))
        e["subsets"][s]["labels"] = sorted(set(d["subsets"][s]["labels"]) ^ {label})
    elif what == "sdesc":
        s = draw(st.sampled_from(sorted(d["subsets"])))
        e["subsets"][s]["description"] = draw(st.sampled_from([None, "", "other"]))
        e["subsets"][s]["as_list"] = False
    elif what == "dropsubset":
        s = draw(st.sampled_from(sorted(d["subsets"])))
        del e["subsets"][s]
        e["steps"] = [x for x in e["steps"] if x[0] != s]
    elif what == "newstep":
        free = [s for s in d["subsets"] if s not in [x[0] for x in d["steps"]]]
        if free:
            e["steps"].append([free[0], ["visit"]])
    elif what == "step":
        e["steps"].pop()
    else:
        e["steps"][-1][1] = draw(st.sampled_from(pipes.DIMS))
    return {"a": d, "b": e, "what": what}


def untagged(m):
    # what the documents mean, with values compared as python compares them
    return [m["instrument"], m["parameters"], m["tasks"], sorted([c[0], c[1] or ""] for c in m["contracts"]),
            {s: [sorted(x), y] for s, (x, y) in m["subsets"].items()}, m["steps"]]


def check_differ(case):
    from lsst.pipe.base import Pipeline

    ps = [Pipeline.fromString(pipes.dump(pipes.to_yaml_dict(case[k]))) for k in "ab"]
    different = untagged(pipes.model(case["a"])) != untagged(pipes.model(case["b"]))
    for x, y in (ps, ps[::-1]):
        try:
            r = x == y
        except Exception:
            r = None  # comparison of configurations may be refused; it just must not say "equal"
        if different:
            expect(r is not True, f"pipelines differing in {case['what']} compare equal")
        elif pipes.to_yaml_dict(case["a"]) == pipes.to_yaml_dict(case["b"]):
            expect(r is True, "identical documents do not compare equal")
    return {"nontrivial": different, "labels": [case["what"] if different else "same"]}


FACETS = [Facet("roundtrip", rt_cases, check_rt, quick=2400, thorough=40000),
          Facet("differ", differ_cases, check_differ, quick=3200, thorough=40000)]
