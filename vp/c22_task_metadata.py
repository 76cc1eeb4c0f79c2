"""C22: task metadata keeps every value under its key through all representations."""
from __future__ import annotations

import copy
import json
import math
import pickle

from core import Facet, Violation, expect, expect_eq, must_raise
from hypothesis import strategies as st

PROPERTY = "C22"
RULE = ("sequences of set/add/delete/read/round-trip operations with dotted keys of depth 1..4 from a small alphabet (so "
        "keys collide across slots) and values of all supported kinds (int incl. beyond 2**53, bool, str incl. "
        "numeric-looking, float incl. NaN/inf, lists, numpy scalars, nested mappings) plus unsupported ones, against a "
        "nested-dict model compared after every step. Non-trivial: at least one hierarchical key and at least four "
        "effective operations.")

names = st.sampled_from(["a", "b", "c", "k:1", "x y", "é"])
keys = st.lists(names, min_size=1, max_size=4).map(".".join)
ints = st.one_of(st.integers(-5, 5), st.sampled_from([2**53 + 1, -(2**63), 2**70, 10**20]))
floats = st.one_of(st.floats(width=64, allow_nan=False).map(lambda f: ["f", f.hex()]), st.sampled_from([["f", "nan"], ["f", "inf"], ["f", "-inf"], ["f", "0x0.0p+0"], ["f", "-0x0.0p+0"]]))
strs = st.one_of(st.sampled_from(["", "12", "1.5", "nan", "inf", "True", "1_0", "null", " 7 "]), st.text(max_size=8).filter(lambda s: all(not 0xD800 <= ord(c) < 0xE000 for c in s)))


def prim():
    return st.one_of(ints.map(lambda i: ["i", str(i)]), floats, st.booleans().map(lambda b: ["b", b]), strs.map(lambda s: ["s", s]))


def lists():
    return st.one_of(
        st.lists(ints.map(lambda i: ["i", str(i)]), max_size=4), st.lists(floats, max_size=4),
        st.lists(st.booleans().map(lambda b: ["b", b]), max_size=4), st.lists(strs.map(lambda s: ["s", s]), max_size=4),
    ).flatmap(lambda v: st.sampled_from(["l", "t"]).map(lambda k: [k, v]))


numpys = st.one_of(st.integers(-100, 100).map(lambda i: ["ni", i]), st.floats(-10, 10, width=32).map(lambda f: ["nf", f]),
                   st.lists(st.integers(0, 9), min_size=1, max_size=3).map(lambda v: ["nil", v]))
values = st.recursive(st.one_of(prim(), prim(), lists(), numpys),
                      lambda inner: st.dictionaries(st.one_of(names, keys), inner, max_size=3).map(lambda d: ["m", d]), max_leaves=6)
@st.composite
def mixed(draw):
    base = draw(st.lists(prim(), min_size=1, max_size=1)) * draw(st.integers(1, 4))
    other = draw(prim().filter(lambda v: v[0] != base[0][0]))
    at = draw(st.integers(0, len(base)))
    return ["badlist", base[:at] + [other] + base[at:]]


bads = mixed() | st.sampled_from([["bad", "none"], ["bad", "set"], ["bad", "object"], ["bad", "mixed"], ["bad", "nested_list"], ["bad", "complex"],
                        ["bad", "mapping_bad"], ["bad", "none_list"], ["bad", "mixed_bool"]])


def build(v):
    """Case value -> python object given to the API."""
    import numpy as np

    t, x = v
    if t == "i":
        return int(x)
    if t == "f":
        return float.fromhex(x)
    if t in ("b", "s"):
        return x
    if t == "l":
        return [build(e) for e in x]
    if t == "t":
        return tuple(build(e) for e in x)
    if t == "ni":
        return np.int64(x)
    if t == "nf":
        return np.float32(x)
    if t == "nil":
        return [np.int32(e) for e in x]
    if t == "m":
        return {k: build(e) for k, e in x.items()}
    if t == "badlist":
        return [build(e) for e in x]
    return {"none": None, "set": {1}, "object": object(), "mixed": [1, "a"], "nested_list": [[1], [2]], "complex": 1j,
            "bytes": b"ab", "mapping_bad": {"p": 1, "q": None}, "none_list": [None], "mixed_bool": [1, True]}[x]


def plain(v):
    """Case value -> model value: scalar, ('list'), or dict."""
    t, x = v
    if t == "ni":
        return int(x)
    if t == "nf":
        import numpy as np

        return float(np.float32(x))
    if t == "nil":
        return [int(e) for e in x]
    if t == "t":
        return [build(e) for e in x]
    if t == "m":
        d = {}
        for k, e in x.items():
            mset(d, k, plain(e))
        return d
    return build(v)


def mset(d, key, val):
    parts = key.split(".")
    for p in parts[:-1]:
        if not isinstance(d.get(p), dict):
            d[p] = {}
        d = d[p]
    d[parts[-1]] = copy.deepcopy(val)


_MISSING = object()


def mget(d, key):
    for p in key.split("."):
        if not isinstance(d, dict) or p not in d:
            return _MISSING
        d = d[p]
    return d


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def flat_names(d, prefix=""):
    out = set()
    for k, v in d.items():
        out.add(prefix + k)
        if isinstance(v, dict):
            out |= flat_names(v, prefix + k + ".")
    return out


def param_names(d, top, prefix=""):
    out = set()
    for k, v in d.items():
        if isinstance(v, dict):
            if not top:
                out |= param_names(v, top, prefix + k + ".")
        else:
            out.add(prefix + k)
    return out


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(["set", "set", "set", "add", "add", "add", "del", "set_bad", "add_bad", "set_dict", "roundtrip", "merge", "alias", "badkey"]))
        if kind in ("set",):
            ops.append([kind, draw(keys), draw(values)])
        elif kind == "add":
            ops.append([kind, draw(keys), draw(st.one_of(prim(), lists(), numpys, values))])
        elif kind == "del":
            ops.append([kind, draw(keys)])
        elif kind in ("set_bad", "add_bad"):
            ops.append([kind, draw(keys), draw(bads)])
        elif kind == "set_dict":
            ops.append([kind, draw(names), draw(st.dictionaries(names, st.one_of(prim(), st.dictionaries(names, prim(), max_size=2).map(lambda d: ["m", d])), max_size=3))])
        elif kind == "roundtrip":
            ops.append([kind, draw(st.sampled_from(["json", "dict", "pickle", "copy", "from_metadata", "dump", "json_parent"]))])
        elif kind == "merge":
            ops.append([kind, draw(keys), draw(st.dictionaries(names, prim(), max_size=2))])
        else:
            ops.append([kind, draw(keys)])
    return {"ops": ops}


def drop_empty_and_unlist(d):
    """Model of from_metadata: one-element arrays become scalars; empty levels vanish."""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            s = drop_empty_and_unlist(v)
            if s:
                out[k] = s
        elif isinstance(v, list) and len(v) == 1:
            out[k] = v[0]
        else:
            out[k] = v
    return out


def verify(tm, model, queries):
    from lsst.pipe.base import TaskMetadata

    expect(same(tm.to_dict(), model), "to_dict", tm.to_dict(), model)
    expect_eq(tm.names(), flat_names(model), "names")
    expect_eq(tm.paramNames(topLevelOnly=False), param_names(model, False), "paramNames(all)")
    expect_eq(tm.paramNames(topLevelOnly=True), param_names(model, True), "paramNames(top)")
    expect_eq(sorted(tm.keys()), sorted(model), "keys")
    expect_eq(sorted(tm), sorted(model), "iteration")
    expect_eq(len(tm), len(model), "len")
    expect_eq(sorted(k for k, _ in tm.items()), sorted(model), "items")
    for q in sorted(flat_names(model)) + queries:
        v = mget(model, q)
        expect_eq(q in tm, v is not _MISSING, f"containment of {q!r}")
        if v is _MISSING:
            for f in (tm.getArray, tm.getScalar, tm.__getitem__):
                with must_raise(KeyError, msg=f"read of missing {q!r}"):
                    f(q)
            expect(tm.get(q, _MISSING) is _MISSING, "get default")
        elif isinstance(v, dict):
            expect(isinstance(tm[q], TaskMetadata) and same(tm[q].to_dict(), v), "nested level", q)
            expect_eq(len(tm.getArray(q)), 1, "getArray of a level")
        elif isinstance(v, list):
            expect(same(list(tm.getArray(q)), v), "getArray", q, tm.getArray(q), v)
            if v:
                expect(same(tm[q], v[-1]) and same(tm.getScalar(q), v[-1]) and same(tm.get(q), v[-1]), "last element", q)
            else:
                with must_raise(KeyError, msg="scalar of an empty list"):
                    tm[q]
        else:
            expect(same(tm[q], v) and same(tm.getScalar(q), v) and same(tm.get(q), v), "scalar", q, tm.get(q), v)
            expect(same(list(tm.getArray(q)), [v]), "getArray of a scalar", q)


def check(case):
    import pydantic
    from lsst.pipe.base import TaskMetadata

    class Parent(pydantic.BaseModel):
        model_config = pydantic.ConfigDict(ser_json_inf_nan="constants")
        child: TaskMetadata

    tm = TaskMetadata()
    model = {}
    effective = 0
    hier = False
    labels = set()
    for op in case["ops"]:
        kind = op[0]
        key = op[1]
        if kind == "set":
            tm[key] = build(op[2])
            mset(model, key, plain(op[2]))
            effective += 1
            hier |= "." in key
        elif kind == "add":
            val = plain(op[2])
            cur = mget(model, key)
            parts = key.split(".")
            parent = model if len(parts) == 1 else mget(model, ".".join(parts[:-1]))
            if not isinstance(parent, dict):
                with must_raise(KeyError, msg="add below a level that does not exist"):
                    tm.add(key, build(op[2]))
            elif isinstance(val, dict) or isinstance(cur, dict):
                with must_raise(ValueError, msg="add of or to a nested level"):
                    tm.add(key, build(op[2]))
            else:
                new = val if isinstance(val, list) else [val]
                old = [] if cur is _MISSING else cur if isinstance(cur, list) else [cur]
                if new and old and type(new[0]) is not type(old[0]):
                    labels.add("add-mismatch")
                    with must_raise(ValueError, msg="add of a different type"):
                        tm.add(key, build(op[2]))
                else:
                    tm.add(key, build(op[2]))
                    mset(model, key, old + new)
                    effective += 1
        elif kind == "del":
            if mget(model, key) is _MISSING:
                with must_raise(KeyError, msg="delete of a missing key"):
                    del tm[key]
            else:
                del tm[key]
                parts = key.split(".")
                d = model if len(parts) == 1 else mget(model, ".".join(parts[:-1]))
                del d[parts[-1]]
                effective += 1
                labels.add("delete")
        elif kind == "set_bad":
            with must_raise(ValueError, msg=f"unsupported value {op[2]}"):
                tm[key] = build(op[2])
            labels.add("rejected")
        elif kind == "add_bad":
            with must_raise(ValueError, KeyError, msg=f"unsupported value {op[2]}"):
                tm.add(key, build(op[2]))
            labels.add("rejected")
        elif kind == "badkey":
            for bad in (3, None, ("a",)):
                with must_raise(KeyError, msg="non-string key"):
                    tm[bad] = 1
        elif kind == "set_dict":
            nested = {k: build(v) for k, v in op[2].items()}
            tm.set_dict(key, nested)
            mset(model, key, plain(["m", op[2]]))
            got = tm.get_dict(key)
            expect(same(got, model[key]), "get_dict", got, model[key])
            got["__new__"] = 1  # a copy, not a view
            effective += 1
        elif kind == "merge":
            child = TaskMetadata.from_dict({k: build(v) for k, v in op[2].items()})
            tm[key] = child
            mset(model, key, plain(["m", op[2]]))
            hier |= "." in key
        elif kind == "alias":
            d = tm.to_dict()

            def scribble(x):
                for k, v in list(x.items()):
                    if isinstance(v, dict):
                        scribble(v)
                    elif isinstance(v, list):
                        v.append("scribble")
                    else:
                        x[k] = "scribble"

            scribble(d)
            other = copy.deepcopy(tm)
            other["a"] = "changed"
            other.add("zz", 1)
            gd = tm.get_dict("a") if isinstance(model.get("a"), dict) else {}
            scribble(gd)
        elif kind == "roundtrip":
            how = key
            labels.add("rt-" + how)
            if how == "json":
                tm = TaskMetadata.model_validate_json(tm.model_dump_json())
            elif how == "dump":
                tm = TaskMetadata.model_validate(tm.model_dump())
            elif how == "json_parent":
                tm = Parent.model_validate_json(Parent(child=tm).model_dump_json()).child
            elif how == "dict":
                tm = TaskMetadata.from_dict(tm.to_dict())
            elif how == "pickle":
                tm = pickle.loads(pickle.dumps(tm))
            elif how == "copy":
                tm = copy.deepcopy(tm)
            else:
                tm = TaskMetadata.from_metadata(tm)
                model = drop_empty_and_unlist(model)
        verify(tm, model, ["a", "a.b", "b.c.a", "zzz", "a.b.c.k:1"])
    return {"nontrivial": hier and effective >= 4, "labels": sorted(labels)}


# -- Struct -----------------------------------------------------------------------------------------------------


fieldnames = st.sampled_from(["a", "b", "c", "d", "x1"])


@st.composite
def struct_cases(draw):
    fields = st.dictionaries(fieldnames, st.integers(0, 9), max_size=4)
    return {"init": draw(fields), "src": draw(fields),
            "merge": draw(st.lists(st.one_of(fieldnames, st.just("missing")), max_size=4, unique=True)),
            "bad": draw(st.sampled_from(["__x", "getDict", "mergeItems"]))}


def check_struct(case):
    """Struct: results handed from tasks to the framework."""
    from lsst.pipe.base import Struct

    s = Struct(**case["init"])
    model = dict(case["init"])
    src = Struct(**case["src"])
    with must_raise(RuntimeError, msg="reserved attribute name"):
        Struct(**{case["bad"]: 1})
    collide = any(n in model for n in case["merge"])
    missing = any(n not in case["src"] for n in case["merge"])
    if collide or missing:
        with must_raise(RuntimeError, AttributeError, msg="merge of existing or missing items"):
            s.mergeItems(src, *case["merge"])
        for k, v in case["init"].items():
            expect_eq(getattr(s, k), v, "existing items survive a rejected merge")
        return {"nontrivial": bool(model)}
    s.mergeItems(src, *case["merge"])
    for n in case["merge"]:
        model[n] = case["src"][n]
    expect_eq(s.getDict(), model, "getDict")
    expect_eq(src.getDict(), case["src"], "source of a merge")
    expect_eq(len(s), len(model), "len")
    for k, v in model.items():
        expect_eq(getattr(s, k), v, k)
    for c in (s.copy(), pickle.loads(pickle.dumps(s))):
        expect_eq(c.getDict(), model, "copy")
        c.a = 77
        c.zzz = 5
        expect_eq(s.getDict(), model, "copy is independent")
    d = s.getDict()
    d["q"] = 1
    expect_eq(s.getDict(), model, "getDict returns a copy")
    return {"nontrivial": bool(model)}


FACETS = [
    Facet("history", cases, check, quick=12000),
    Facet("struct", struct_cases, check_struct, quick=1200, shards=2),
]
