"""C02: importing pipelines follows the documented include/exclude/rename rules."""
from __future__ import annotations

import os

import pipes
from core import Facet, Violation, expect, expect_eq, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C02"
TECHNIQUE = "property-based testing (Hypothesis): import trees against a reference model of the import rules"
RULE = ("random trees (depth up to 3) of pipeline documents written to files, with every combination of include, exclude, "
        "rename, instrument, importContracts, importSteps and labeledSubsetModifyMode, label and subset collisions and "
        "conflicting instruments; the loaded pipeline is compared section by section with a model of the documented "
        "rules, including which trees must be refused. Non-trivial: at least one import with options that change "
        "something, and the tree is accepted, or a refused tree.")
ASSUMPTIONS = ["contracts are only required to be dropped when they use a removed task, the documentation allows "
               "dropping more (no generated contract is ambiguous)"]

NEW = ["n0", "n1", "n2"]


@st.composite
def options(draw, m):
    o = {}
    labels, subs = sorted(m["tasks"]), sorted(m["subsets"])
    sel = draw(st.sampled_from(["none", "include", "exclude", "include", "exclude", "both"]))
    pool = labels * 2 + subs
    if pool:
        pick = st.lists(st.sampled_from(pool), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=4, unique=True)
        if sel in ("include", "both"):
            o["include"] = draw(pick)
        if sel in ("exclude", "both"):
            o["exclude"] = draw(pick)
        if sel == "both" and not (o["include"] and o["exclude"]):
            del o["include"]
    if labels and draw(st.booleans()):
        targets = NEW * 3 + labels + subs[:1]
        keys = draw(st.lists(st.sampled_from(labels), min_size=1, max_size=2, unique=True))
        uniq = draw(st.integers(0, 5)) > 0
        vals = draw(st.lists(st.sampled_from(targets), min_size=len(keys), max_size=len(keys), unique=uniq))
        o["rename"] = dict(zip(keys, vals))
    if draw(st.integers(0, 3)) == 0:
        o["importContracts"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o["importSteps"] = draw(st.booleans())
    if draw(st.booleans()):
        o["labeledSubsetModifyMode"] = draw(st.sampled_from(["EDIT", "EDIT", "DROP"]))
    if draw(st.integers(0, 5)) == 0:
        o["instrument"] = draw(st.sampled_from(["None"] + pipes.INSTS))
    return o


@st.composite
def nodes(draw, depth, pool, subpool, parampool, inst):
    """Returns (tree, model or None if it must be refused)."""
    imports = []
    models = []
    refused = False
    nimp = 0 if depth == 0 else draw(st.sampled_from([0, 1, 1, 2] if depth < 3 else [1, 1, 2, 2]))
    shared = draw(st.integers(0, 6)) == 0
    for i in range(nimp):
        if shared:
            pl, sp, pp = pool, subpool, parampool
        else:
            pl, sp, pp = pool[i::nimp], subpool[i::nimp], parampool[i::nimp]
        child, cm = draw(nodes(depth - 1, pl or pool, sp, pp or parampool, inst))
        o = draw(options(cm)) if cm is not None else {}
        imports.append({"child": child, "opts": o, "form": draw(st.sampled_from(["str", "dict"])) if not o else "dict",
                        "env": draw(st.booleans()), "single": draw(st.booleans())})
        if cm is None:
            refused = True
            continue
        try:
            models.append(pipes.m_import(cm, o))
        except pipes.Rejected:
            refused = True
    # own document: labels from the imported ones and a few of its own; subsets may use all of them
    avail = [k for m in models for k in m["tasks"]]
    own = draw(pipes.docs(labels=sorted(set(pool[:3] + avail)), min_tasks=0 if imports else 1, subset_names=[], params=parampool or ["p0"], inst=inst))
    alltasks = sorted(set(avail) | set(own["tasks"]))
    if alltasks and subpool:
        names = ["o0", "o1"] + subpool[:1]
        if draw(st.integers(0, 7)) == 0:
            names = names + alltasks[:1]
        for s in draw(st.lists(st.sampled_from(names), max_size=2, unique=True)):
            own["subsets"][s] = {"labels": sorted(draw(st.lists(st.sampled_from(alltasks), max_size=3, unique=True))),
                                 "description": draw(st.sampled_from([None, "own"])), "as_list": False}
    cand = sorted(set(own["subsets"]) | {s for m in models for s in m["subsets"]})
    if cand:
        for s in draw(st.lists(st.sampled_from(cand), max_size=2, unique=True)):
            dims = draw(st.sampled_from(pipes.DIMS[:3]))
            for m in models:
                for a, b in m["steps"]:
                    if a == s and draw(st.booleans()):
                        dims = b
            own["steps"].append([s, dims])
    model = None
    if not refused:
        try:
            model = pipes.m_merge(pipes.model(own), models)
        except pipes.Rejected:
            model = None
    return {"own": own, "imports": imports}, model


@st.composite
def cases(draw):
    inst = draw(st.sampled_from([pipes.INSTS[:1], pipes.INSTS[:1], pipes.INSTS]))
    tree, _ = draw(nodes(draw(st.sampled_from([1, 2, 2, 3])), pipes.LABELS, pipes.SUBSETS, pipes.PARAMS, inst))
    return {"tree": tree}


def tree_model(t):
    ms = [pipes.m_import(tree_model(i["child"]), i["opts"]) for i in t["imports"]]
    m = pipes.m_merge(pipes.model(t["own"]), ms)
    return m


def write(t, directory, counter):
    imports = []
    for i in t["imports"]:
        path = write(i["child"], directory, counter)
        if i["env"]:
            path = path.replace(directory, "$VP_DIR")
        if i["form"] == "str":
            imports.append(path)
        else:
            o = {"location": path}
            for k, v in i["opts"].items():
                if k in ("include", "exclude") and len(v) == 1 and i["single"]:
                    v = v[0]
                o[k] = v
            imports.append(o)
    y = pipes.to_yaml_dict(t["own"], imports if len(imports) != 1 or not t["imports"][0]["single"] else imports[0])
    path = os.path.join(directory, f"p{counter[0]}.yaml")
    counter[0] += 1
    with open(path, "w") as f:
        f.write(pipes.dump(y))
    return path


def check(case):
    from lsst.pipe.base import Pipeline

    t = case["tree"]
    try:
        m = tree_model(t)
    except pipes.Rejected as exc:
        m, why = None, str(exc)
    with scratch_dir() as d:
        os.environ["VP_DIR"] = d
        path = write(t, d, [0])
        if m is None:
            try:
                p = Pipeline.fromFile(path)
            except (ValueError, KeyError, LookupError):
                return {"nontrivial": True, "labels": ["refused: " + why]}
            raise Violation(f"an invalid import tree is accepted ({why}): {p}")
        p = Pipeline.fromFile(path)
        got = pipes.observe(p)
        want = pipes.normal(m)
        for part in want:
            if part == "steps":
                expect_eq(sorted(got[part]), sorted(want[part]), "steps of the loaded pipeline")
            else:
                expect_eq(got[part], want[part], f"{part} of the loaded pipeline")
        expect_eq(set(p.task_labels), set(m["tasks"]), "task labels")
        # the order in which pipelines are imported is documented not to matter
        if len(t["imports"]) > 1 and not overlapping_params(t):
            y = dict(t, imports=t["imports"][::-1])
            q = Pipeline.fromFile(write(y, d, [100]))
            g2 = pipes.observe(q)
            for part in want:
                if part != "steps":
                    expect_eq(g2[part], want[part], f"{part} with the imports in reverse order")
    labels = {k for i in all_imports(t) for k in i["opts"]}
    return {"nontrivial": bool(labels), "labels": sorted(labels)}


def overlapping_params(t):
    ps = [set(tree_model(i["child"])["parameters"]) for i in t["imports"]]
    return len(set().union(*ps)) != sum(map(len, ps))


def all_imports(t):
    for i in t["imports"]:
        yield i
        yield from all_imports(i["child"])


FACETS = [Facet("tree", cases, check, quick=3200, thorough=60000)]
