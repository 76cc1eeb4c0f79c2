"""Generators and the reference model of pipeline documents (shared by C01, C02, C03)."""
from __future__ import annotations

import copy
import re

import yaml
from hypothesis import strategies as st

LABELS = ["t0", "t1", "t2", "t3", "t4", "t5", "t10"]
SUBSETS = ["s0", "s1", "s2", "s3"]
INSTS = ["vptasks.InstOne", "vptasks.InstTwo"]
KEYS = ["i", "f", "s", "b", "sub.a", "sub.b", "rng", "connections.tpl"]
DIMS = [["visit", "detector"], ["visit"], ["tract", "patch"], ["exposure"], []]
TEXT = st.one_of(st.sampled_from(["a pipeline", "x: y", "multi\nline", "trailing \nspace", "'quoted'", "é", "- list", "#c", "yes", "12", "a\n\n  b\n", "tab\there"]),
                 st.text("ab:#-'\" \n", min_size=1, max_size=8))
PARAMS = ["p0", "p1", "p2"]
VALUES = st.one_of(st.integers(-3, 30), st.booleans(), st.floats(-4, 4, width=16), st.sampled_from(["one", "yes", "12", "parameters.p0", "parameters.p1", "parameters.nope", "a b", "", "0x10", "1e3", "null", "~", "2001-01-01"]),
                   st.lists(st.integers(0, 4), max_size=3), st.none(), st.dictionaries(st.sampled_from(["k", "m"]), st.integers(0, 3), max_size=2))
PY = ["config.i = 5", "config.s = 'z'\nconfig.f = 2.5\n", "for n in range(3):\n    config.i = n\n", "x = 'a'  \nconfig.s = x", "config.li = [4]\n\nconfig.ls = []"]
FILES = ["$VP_DIR/f0.py", "$VP_DIR/f1.py", "/nowhere/f2.py", "/nowhere/f1.py"]


@st.composite
def blocks(draw):
    """One config block: {"file": [...], "python": str|None, "rest": {}}"""
    kind = draw(st.sampled_from(["kv", "kv", "kv", "file", "py", "all"]))
    b = {"file": [], "python": None, "rest": {}}
    if kind in ("kv", "all"):
        b["rest"] = draw(st.dictionaries(st.sampled_from(KEYS), VALUES, min_size=kind == "kv", max_size=3))
    if kind in ("file", "all"):
        b["file"] = draw(st.lists(st.sampled_from(FILES), min_size=1, max_size=3))
    if kind in ("py", "all"):
        b["python"] = draw(st.sampled_from(PY))
    return b


@st.composite
def task_defs(draw):
    return {"class": "vptasks.Task" + draw(st.sampled_from("AAB")),
            "config": draw(st.one_of(st.none(), st.lists(blocks(), min_size=1, max_size=3)))}


@st.composite
def contracts(draw, labels):
    ls = draw(st.lists(st.sampled_from(labels), min_size=1, max_size=2, unique=True))
    form = draw(st.sampled_from(["plain", "plain", "paren", "neg", "call"]))
    terms = [f"{x}.{draw(st.sampled_from(['i', 'sub.a', 's']))}" for x in ls]
    joiner = draw(st.sampled_from([" == ", " or ", "!="]))
    expr = joiner.join(terms)
    if form == "paren":
        expr = "(" + (joiner + "\n  ").join(terms) + ")"
    elif form == "neg":
        expr = f"not({expr}) or True"
    elif form == "call":
        expr = f"bool([{', '.join(terms)}])"
    return [expr, draw(st.one_of(st.none(), st.none(), st.sampled_from(["must agree", "a: b", "multi\nline"]))), sorted(ls)]


@st.composite
def docs(draw, labels=LABELS, min_tasks=1, subset_names=SUBSETS, step_ok=True, params=PARAMS, inst=INSTS):
    """A self-contained pipeline (no imports) in model form (plain JSON)."""
    n = draw(st.one_of(st.integers(min_tasks, min(4, len(labels))), st.integers(min_tasks, min(6, len(labels)))))
    ls = draw(st.lists(st.sampled_from(labels), min_size=n, max_size=n, unique=True))
    d = {"description": draw(TEXT), "instrument": draw(st.one_of(st.none(), st.none(), st.sampled_from(inst))),
         "parameters": draw(st.dictionaries(st.sampled_from(params), VALUES.filter(lambda v: not (isinstance(v, str) and v.startswith("parameters"))), max_size=2)),
         "tasks": {x: draw(task_defs()) for x in ls}, "contracts": [], "subsets": {}, "steps": []}
    if ls:
        d["contracts"] = draw(st.lists(contracts(ls), max_size=2, unique_by=lambda c: (c[0], c[1])))
        for s in draw(st.lists(st.sampled_from(subset_names), max_size=3, unique=True)) if subset_names else []:
            d["subsets"][s] = {"labels": sorted(draw(st.lists(st.sampled_from(ls), max_size=5, unique=True))),
                               "description": draw(st.one_of(st.none(), TEXT, TEXT, st.just(""))), "as_list": False}
            if d["subsets"][s]["description"] is None:
                d["subsets"][s]["as_list"] = draw(st.booleans())
    if step_ok and d["subsets"]:
        steps = draw(st.lists(st.sampled_from(sorted(d["subsets"])), max_size=2, unique=True))
        d["steps"] = [[s, draw(st.sampled_from(DIMS))] for s in steps]
    return d


# ------------------------------------------------------------------------------------------------ rendering


def block_to_yaml(b):
    out = {}
    if b["file"]:
        out["file"] = list(b["file"]) if len(b["file"]) != 1 else b["file"][0]
    if b["python"] is not None:
        out["python"] = b["python"]
    out.update(copy.deepcopy(b["rest"]))
    return out


def to_yaml_dict(d, imports=None):
    out = {"description": d["description"]}
    if d["instrument"] is not None:
        out["instrument"] = d["instrument"]
    if d["parameters"]:
        out["parameters"] = copy.deepcopy(d["parameters"])
    if imports:
        out["imports"] = imports
    if d["tasks"] or not imports:
        out["tasks"] = {}
        for k, t in d["tasks"].items():
            if t["config"] is None:
                out["tasks"][k] = t["class"]
            else:
                bl = [block_to_yaml(b) for b in t["config"]]
                out["tasks"][k] = {"class": t["class"], "config": bl[0] if len(bl) == 1 else bl}
    if d["contracts"]:
        out["contracts"] = [c[0] if c[1] is None else {"contract": c[0], "msg": c[1]} for c in d["contracts"]]
    if d["subsets"]:
        out["subsets"] = {}
        for s, v in d["subsets"].items():
            if v["as_list"]:
                out["subsets"][s] = list(v["labels"])
            else:
                out["subsets"][s] = {"subset": list(v["labels"])}
                if v["description"] is not None:
                    out["subsets"][s]["description"] = v["description"]
    if d["steps"]:
        out["steps"] = [{"label": a, "dimensions": list(b)} for a, b in d["steps"]]
    return out


def dump(d):
    return yaml.safe_dump(d, sort_keys=False, allow_unicode=True)


# ------------------------------------------------------------------------------------------------ model


def flat(config):
    """Config blocks -> the ordered effect of the overrides, insensitive to how blocks are grouped."""
    out = []

    def kv(k, v):
        if not out or out[-1][0] != "kv":
            out.append(["kv", {}])
        out[-1][1][k] = v

    for b in config or []:
        for f in b["file"]:
            out.append(["file", f])
        if b["python"] is not None:
            out.append(["python", b["python"]])
        for k, v in b["rest"].items():
            kv(k, v)
    return out


def flat_join(a, b):
    """Concatenate two flattened configurations."""
    out = copy.deepcopy(a)
    for e in b:
        if e[0] == "kv" and out and out[-1][0] == "kv":
            out[-1][1].update(copy.deepcopy(e[1]))
        else:
            out.append(copy.deepcopy(e))
    return out


def model(d):
    return {"description": d["description"], "instrument": d["instrument"], "parameters": copy.deepcopy(d["parameters"]),
            "tasks": {k: [t["class"], flat(t["config"])] for k, t in d["tasks"].items()},
            "contracts": [[c[0], c[1], list(c[2])] for c in d["contracts"]],
            "subsets": {s: [sorted(v["labels"]), v["description"]] for s, v in d["subsets"].items()},
            "steps": [[a, list(b)] for a, b in d["steps"]]}


class Rejected(Exception):
    """The model says the operation must be refused."""


def m_subset(m, labels, mode):
    """Restrict model ``m`` to task labels."""
    m = copy.deepcopy(m)
    expanded = set()
    for x in labels:
        if x in m["subsets"]:
            expanded.update(m["subsets"][x][0])
        elif x in m["tasks"]:
            expanded.add(x)
        else:
            raise Rejected(f"unknown label {x}")
    removed = set(m["tasks"]) - expanded
    m["tasks"] = {k: v for k, v in m["tasks"].items() if k in expanded}
    m["contracts"] = [c for c in m["contracts"] if not (set(c[2]) & removed)]
    subs = {}
    for s, (ls, desc) in m["subsets"].items():
        if mode == "DROP":
            if not ls or set(ls) & removed:
                continue
        ls = [x for x in ls if x not in removed]
        subs[s] = [ls, desc]
    m["subsets"] = subs
    m["steps"] = [x for x in m["steps"] if x[0] in subs]
    return m


def m_rename_contract(c, rename):
    expr = c[0]
    for a, b in rename.items():
        expr = re.sub(rf"(?<![A-Za-z0-9_.]){a}\.", f"{b}.", expr)
    return [expr, c[1], sorted(rename.get(x, x) for x in c[2])]


def m_import(m, opts):
    """Apply the options of an import to the model of the imported pipeline."""
    include, exclude, rename = opts.get("include"), opts.get("exclude"), opts.get("rename") or {}
    if include and exclude:
        raise Rejected("include and exclude")
    if len(set(rename.values())) != len(rename) or set(rename.values()) & set(rename):
        raise Rejected("bad rename")
    m = copy.deepcopy(m)
    if "instrument" in opts:
        m["instrument"] = None if opts["instrument"] == "None" else opts["instrument"]

    def expand(xs):
        out = set()
        for x in xs:
            out.update(m["subsets"][x][0] if x in m["subsets"] else [x])
        return out

    labels = set(m["tasks"])
    if include is not None:
        labels &= expand(include)
    elif exclude is not None:
        labels -= expand(exclude)
    rename = {a: b for a, b in rename.items() if a in labels}
    if set(rename.values()) & set(m["tasks"]):
        raise Rejected("rename to an existing label")
    if opts.get("importSteps", True) is False:
        m["steps"] = []
    m = m_subset(m, labels, opts.get("labeledSubsetModifyMode", "DROP"))
    m["tasks"] = {rename.get(k, k): v for k, v in m["tasks"].items()}
    m["subsets"] = {s: [sorted(rename.get(x, x) for x in ls), desc] for s, (ls, desc) in m["subsets"].items()}
    m["contracts"] = [m_rename_contract(c, rename) for c in m["contracts"]]
    if opts.get("importContracts", True) is False:
        m["contracts"] = []
    return m


def m_merge(base, others):
    """Merge imported models into ``base`` (the importing document)."""
    m = copy.deepcopy(base)
    tasks, subsets, params, steps = {}, {}, {}, {}
    for o in others:
        o = copy.deepcopy(o)
        if m["instrument"] is None:
            m["instrument"] = o["instrument"]
        elif o["instrument"] is not None and o["instrument"] != m["instrument"]:
            raise Rejected("instruments differ")
        if set(tasks) & set(o["tasks"]):
            raise Rejected("duplicate label")
        tasks.update(o["tasks"])
        m["contracts"] += o["contracts"]
        if set(subsets) & set(o["subsets"]):
            raise Rejected("duplicate subset")
        subsets.update(o["subsets"])
        if set(subsets) & set(tasks):
            raise Rejected("subset named like a task")
        params.update(o["parameters"])
        for s, dims in o["steps"]:
            if steps.setdefault(s, dims) != dims:
                raise Rejected("conflicting steps")
    for s, dims in m["steps"]:
        if steps.setdefault(s, dims) != dims:
            raise Rejected("conflicting steps")
    if set(subsets) & set(m["tasks"]):
        raise Rejected("subset named like a task")
    subsets.update(m["subsets"])
    for k, (klass, cfg) in m["tasks"].items():
        if k in tasks and tasks[k][0] == klass:
            tasks[k][1] = flat_join(tasks[k][1], cfg)
        else:
            tasks[k] = [klass, cfg]
    params.update(m["parameters"])
    m.update(tasks=tasks, subsets=subsets, parameters=params, steps=[[k, v] for k, v in steps.items()])
    m_verify(m)
    return m


def m_verify(m):
    for ls, _ in m["subsets"].values():
        if set(ls) - set(m["tasks"]):
            raise Rejected("subset with unknown label")
    if set(m["subsets"]) & set(m["tasks"]):
        raise Rejected("subset named like a task")
    for s, _ in m["steps"]:
        if s not in m["subsets"]:
            raise Rejected("step without subset")


# ------------------------------------------------------------------------------------------------ observation


def normal(m):
    """Comparable form of a model."""
    return {"description": m["description"], "instrument": m["instrument"], "parameters": tag(m["parameters"]),
            "tasks": {k: tag([t[0], t[1]]) for k, t in m["tasks"].items()},
            "contracts": sorted([c[0], c[1] or ""] for c in m["contracts"]),
            "subsets": {s: [sorted(ls), desc] for s, (ls, desc) in m["subsets"].items()},
            "steps": [[a, list(b)] for a, b in m["steps"]]}


def tag(x):
    """Make values comparable with their types (1 != True != 1.0)."""
    if isinstance(x, dict):
        return {k: tag(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tag(v) for v in x]
    return [type(x).__name__, x]


def observe(p):
    """Observe a Pipeline through its rendered form, read with an independent YAML loader."""
    return observe_text(str(p))


def observe_text(text):
    y = yaml.safe_load(text)
    tasks = {}
    for k, t in (y.get("tasks") or {}).items():
        if isinstance(t, str):
            t = {"class": t}
        cfg = t.get("config") or []
        if isinstance(cfg, dict):
            cfg = [cfg]
        bl = []
        for c in cfg:
            c = dict(c)
            f = c.pop("file", [])
            if isinstance(f, str):
                f = [f]
            bl.append({"file": f, "python": c.pop("python", None), "rest": c})
        tasks[k] = [t["class"], flat(bl)]
    subs = {}
    for s, v in (y.get("subsets") or {}).items():
        if isinstance(v, list):
            v = {"subset": v}
        subs[s] = [sorted(v["subset"]), v.get("description")]
    return normal({"description": y["description"], "instrument": y.get("instrument"), "parameters": y.get("parameters") or {},
                   "tasks": tasks,
                   "contracts": [[c, None] if isinstance(c, str) else [c["contract"], c.get("msg")] for c in y.get("contracts") or []],
                   "subsets": subs, "steps": [[s["label"], list(s["dimensions"])] for s in y.get("steps") or []]})
