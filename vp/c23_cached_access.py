"""C23: caching and in-memory dataset access is indistinguishable from direct access."""
from __future__ import annotations

import copy
import gc
import time
from unittest import mock

from core import Facet, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C23"
RULE = ("caching: histories of put (own or convertible type, injected failures), get (components, derived components, "
        "parameters, storage classes, overridden refs), deferred reads, existence checks and removals over composite and "
        "plain datasets, through a caching limited butler with generated cache sets, against a twin store that is always "
        "read directly; returned and written objects are mutated afterwards. Non-trivial: a cached dataset is read at "
        "least twice, or read after removal or rewrite. handle: in-memory handles against the same store. blocking: "
        "datasets that appear after k attempts under a simulated clock.")

COMPONENTS = [None, None, None, "a", "b", "sum"]
PARAMS = [None, None, None, {}, {"slice": 1}, {"slice": 2, "scale": 3}, {"start": 1}, {"bad": 1}]
CLASSES = [None, None, None, "VPComp", "VPAlt", "VPThird", "StructuredDataDict", "VPList"]
REFS = ["x0", "x1", "y0", "y1", "z0"]


def values():
    return st.tuples(st.lists(st.integers(0, 9), min_size=1, max_size=4), st.dictionaries(st.sampled_from("pq"), st.integers(0, 9), max_size=2))


def read():
    return st.tuples(st.sampled_from(COMPONENTS), st.sampled_from(PARAMS), st.sampled_from(CLASSES), st.booleans())


@st.composite
def cache_cases(draw):
    names = ["x", "y", "x.a", "x.b", "x.sum"]
    sub = st.lists(st.sampled_from(names), unique=True, max_size=4)
    focus = draw(st.sampled_from([None, "x0", "y0"]))
    ref = st.sampled_from(REFS + [focus] * 8) if focus else st.sampled_from(REFS)
    op = st.one_of(
        st.tuples(st.just("put"), ref, values(), st.sampled_from(["own", "own", "alt"]), st.sampled_from(["ok"] * 5 + ["fail"])),
        st.tuples(st.just("get"), ref, read(), st.sampled_from(["plain", "plain", "plain", "over", "deferred"])),
        st.tuples(st.just("get"), ref, read(), st.sampled_from(["plain", "plain", "plain", "over", "deferred"])),
        st.tuples(st.just("stored"), st.lists(st.tuples(ref, st.sampled_from(COMPONENTS)), min_size=1, max_size=4), st.booleans()),
        st.tuples(st.just("prune"), st.lists(ref, min_size=1, max_size=3), st.sampled_from(["unstore", "unstore", "purge", "none"]), st.booleans()),
    )
    initial = draw(st.lists(st.sampled_from(REFS), unique=True, max_size=4))
    if focus and focus not in initial:
        initial.append(focus)
    return {"put": draw(sub), "get": draw(sub), "nocopy": draw(st.lists(st.sampled_from(names), unique=True, max_size=1)),
            "init": [(r, draw(values())) for r in initial], "ops": draw(st.lists(op, min_size=2, max_size=14))}


def build(name, v, kind="own"):
    import vpdata

    a, b = v
    if name[0] == "y":
        return {"a": list(a), "b": dict(b)}
    return (vpdata.Alt if kind == "alt" else vpdata.Comp)(list(a), dict(b))


def outcome(f):
    import vpdata

    try:
        obj = f()
    except Exception as e:
        return ("raised",), e, None
    return ("value", vpdata.plain(obj)), None, obj


def component_ref(ref, component, storage_class=None):
    if component:
        ref = ref.makeComponentRef(component)
    if storage_class:
        ref = ref.overrideStorageClass(storage_class)
    return ref


def check_cache(case):
    import vpdata
    from lsst.daf.butler import DimensionUniverse
    from lsst.pipe.base.caching_limited_butler import CachingLimitedButler

    universe = DimensionUniverse()
    types, refs = vpdata.make_refs(universe)
    direct, wrapped = vpdata.Store(universe, types), vpdata.Store(universe, types)
    for name, v in case["init"]:
        for s in (direct, wrapped):
            s.put(build(name, v), refs[name])
    base = len(vpdata.LIVE)
    nocopy = set(case["nocopy"])
    cached = CachingLimitedButler(wrapped, cache_on_put=frozenset(case["put"]), cache_on_get=frozenset(case["get"]), no_copy_on_cache=frozenset(nocopy))
    reads = {}
    changed = set()
    nontrivial = False
    for step, op in enumerate(case["ops"]):
        what = f"step {step} {op}"
        if op[0] == "put":
            _, name, v, kind, fate = op
            o1, o2 = build(name, v, kind), build(name, v, kind)
            direct.fail_puts = wrapped.fail_puts = int(fate == "fail")
            r1 = outcome(lambda: direct.put(o1, refs[name]) and None)
            r2 = outcome(lambda: cached.put(o2, refs[name]) and None)
            expect_eq(r2[0], r1[0], f"{what}: result of put")
            if r1[1] is not None:
                expect_eq(type(r2[1]), type(r1[1]), f"{what}: exception")
            if name[0] not in nocopy:
                vpdata.mutate(o2)
            changed.add(name)
            o1 = o2 = r1 = r2 = None
        elif op[0] == "get":
            _, name, (component, params, sc, mut), how = op
            if component and name[0] == "y":
                component = None
            ref = component_ref(refs[name], component)
            kwargs = {"parameters": params}
            given = copy.deepcopy(params)
            if how == "over" and sc:
                r = outcome(lambda: ref.overrideStorageClass(sc))
                if r[1] is not None:
                    continue
                ref = r[2]
            elif sc:
                kwargs["storageClass"] = sc
            if how == "deferred":
                r1 = outcome(lambda: direct.getDeferred(ref, **copy.deepcopy(kwargs)).get())
                r2 = outcome(lambda: cached.getDeferred(ref, **kwargs).get())
            else:
                r1 = outcome(lambda: direct.get(ref, **copy.deepcopy(kwargs)))
                r2 = outcome(lambda: cached.get(ref, **kwargs))
            expect_eq(params, given, f"{what}: parameters were changed")
            if r1[0] != r2[0]:
                expect(False, f"{what}: read through the cache differs from a direct read", r2[0], repr(r2[1]), r1[0], repr(r1[1]))
            if r1[1] is not None:
                expect(isinstance(r2[1], FileNotFoundError) == isinstance(r1[1], FileNotFoundError), f"{what}: exception", repr(r2[1]), repr(r1[1]))
            key = (name, component)
            reads[key] = reads.get(key, 0) + 1
            tracked = ref.datasetType.name in set(case["get"]) | set(case["put"])
            nontrivial |= tracked and (reads[key] >= 2 or name in changed)
            if mut and not ({name[0], ref.datasetType.name} & nocopy) and not (component and f"{name[0]}" in nocopy):
                vpdata.mutate(r2[2])
            r1 = r2 = None
        elif op[0] == "stored":
            _, which, many = op
            rr = [component_ref(refs[n], c if n[0] != "y" else None) for n, c in which]
            if many:
                expect_eq(dict(cached.stored_many(iter(rr))), direct.stored_many(rr), f"{what}: stored_many")
            else:
                for r in rr:
                    expect_eq(cached.stored(r), direct.stored(r), f"{what}: stored {r}")
        elif op[0] == "prune":
            _, which, mode, one_pass = op
            rr = [refs[n] for n in which]
            kw = {"unstore": mode != "none", "purge": mode == "purge", "disassociate": mode != "none"}
            direct.pruneDatasets(rr, **kw)
            cached.pruneDatasets(iter(rr) if one_pass else rr, **kw)
            changed.update(which)
        cacheable = set(case["get"]) | set(case["put"])
        live = len(vpdata.LIVE) - base
        if live > int("x" in cacheable):
            gc.collect()
            live = len(vpdata.LIVE) - base
        expect(live <= int("x" in cacheable), f"{what}: more datasets are retained than one of each cacheable dataset type", live, sorted(cacheable))
    expect_eq({k: vpdata.plain(__import__("pickle").loads(v)) for k, v in wrapped.data.items()},
              {k: vpdata.plain(__import__("pickle").loads(v)) for k, v in direct.data.items()}, "final contents of the wrapped store")
    return nontrivial


# ------------------------------------------------------------------- handles


@st.composite
def handle_cases(draw):
    return {"kind": draw(st.sampled_from(["x", "x", "y", "none"])), "value": draw(values()), "sc": draw(st.sampled_from([None, "name", "object"])),
            "params": draw(st.sampled_from(PARAMS + [{"scale": 2}])), "copy": draw(st.booleans()),
            "reads": draw(st.lists(read(), min_size=1, max_size=6)),
            "id": draw(st.sampled_from(["none", "coord", "dict", "kwargs", "coord+kwargs", "dict+kwargs"]))}


def check_handle(case):
    import vpdata
    from lsst.daf.butler import DataCoordinate, DimensionUniverse
    from lsst.pipe.base import InMemoryDatasetHandle

    universe = DimensionUniverse()
    types, refs = vpdata.make_refs(universe)
    kind = case["kind"]
    coord = DataCoordinate.standardize(instrument="I", universe=universe)
    ident = {"none": {}, "coord": {"dataId": coord}, "dict": {"dataId": {"instrument": "I", "detector": 3}}, "kwargs": {"instrument": "I", "detector": 3},
             "coord+kwargs": {"dataId": coord, "detector": 3}, "dict+kwargs": {"dataId": {"instrument": "I", "detector": 2}, "detector": 3}}[case["id"]]
    kwargs = {"copy": case["copy"], "parameters": dict(case["params"]) if case["params"] is not None else None, **ident}
    if kind == "none":
        obj, name = None, "x0"
    else:
        name = kind + "0"
        obj = build(name, case["value"])
    if case["sc"] or kind == "y":  # several storage classes share the type dict
        sc = types[name[0]].storageClass
        kwargs["storageClass"] = sc if case["sc"] == "object" else sc.name
    handle = InMemoryDatasetHandle(obj, **kwargs)
    got = {k: handle.dataId[k] for k in handle.dataId} if not isinstance(handle.dataId, DataCoordinate) else dict(handle.dataId.required)
    expect_eq(got, {"none": {}, "coord": {"instrument": "I"}}.get(case["id"], {"instrument": "I", "detector": 3}), "data ID of handle")
    expect_eq(handle == InMemoryDatasetHandle(obj, **kwargs), True, "equal handles differ")
    if kind == "none":
        for component, params, sc, _ in case["reads"]:
            expect_eq(handle.get(component=component, parameters=params, storageClass=sc), None, "a stored None is returned as None")
        return False
    direct = vpdata.Store(universe, types)
    direct.put(build(name, case["value"]), refs[name])
    nontrivial = False
    for component, params, sc, mut in case["reads"]:
        if name[0] == "y":
            component = None
        merged = {**(case["params"] or {}), **(params or {})}
        given = dict(params) if params is not None else None
        passed = dict(params) if params is not None else None
        r1 = outcome(lambda: direct.get(component_ref(refs[name], component), parameters=dict(merged), storageClass=sc))
        r2 = outcome(lambda: handle.get(component=component, parameters=passed, storageClass=sc))
        what = f"component={component} parameters={params} on {case['params']} storageClass={sc}"
        if r1[0] != r2[0]:
            # Parameters are validated against the requested storage class in a butler but against the stored one in a handle.
            if not (sc and merged and r1[1] is not None):
                expect(False, f"{what}: read through the handle differs from a direct read", r2[0], repr(r2[1]), r1[0], repr(r1[1]))
        expect_eq(passed, given, f"{what}: parameters were changed")
        expect_eq(handle.parameters, case["params"], f"{what}: parameters of the handle were changed")
        nontrivial |= bool(component or merged or sc) and r1[1] is None
        if case["copy"] and mut:
            vpdata.mutate(r2[2])
    if not case["copy"]:
        expect(handle.parameters or handle.get() is obj, "a handle that does not copy returns another object")
    return nontrivial


# ------------------------------------------------------------------ blocking


@st.composite
def blocking_cases(draw):
    tout = st.sampled_from([None, 0.0, 0.4, 3.0, 1000.0])
    ops = st.tuples(st.sampled_from(["get", "stored_many", "stored", "deferred"]), st.lists(st.sampled_from(["x0", "x1", "y0", "z0"]), min_size=1, max_size=3, unique=True),
                    st.sampled_from([None, None, "a"]), st.sampled_from(PARAMS), st.sampled_from(CLASSES))
    return {"timeouts": draw(st.dictionaries(st.sampled_from("xy"), tout)), "present": draw(st.lists(st.sampled_from(["x0", "x1", "y0", "z0"]), unique=True, max_size=4)),
            "appear": draw(st.dictionaries(st.sampled_from(["x0", "x1", "y0", "z0"]), st.integers(1, 30))), "value": draw(values()), "op": draw(ops)}


def check_blocking(case):
    import vpdata
    from lsst.daf.butler import DimensionUniverse
    from lsst.pipe.base.blocking_limited_butler import BlockingLimitedButler

    universe = DimensionUniverse()
    types, refs = vpdata.make_refs(universe)
    kind, names, component, params, sc = case["op"]
    kw = {"parameters": params, "storageClass": sc}
    if kind in ("get", "stored", "deferred"):
        names = names[:1]
    store = vpdata.Store(universe, types)
    for n in case["present"]:
        store.put(build(n, case["value"]), refs[n])
    delay = {n: k for n, k in case["appear"].items() if n in case["present"]}
    store.appear = {refs[n].id: k for n, k in delay.items()}
    limits = {n: case["timeouts"].get(n[0], 0.0) for n in names}
    if any(limits[n] is None and n not in case["present"] for n in names):
        return False  # waits forever, as documented
    now = [1000.0]

    def tick(dt=0.5):
        now[0] += dt

    with mock.patch.object(time, "time", lambda: now[0]), mock.patch.object(time, "sleep", lambda s: tick(max(s, 1e-3))), \
            mock.patch.object(time, "monotonic", lambda: now[0]), mock.patch.object(time, "perf_counter", lambda: now[0]):
        butler = BlockingLimitedButler(store, case["timeouts"])
        rr = [component_ref(refs[n], component if n[0] != "y" else None) for n in names]
        start = now[0]
        if kind == "get":
            res = outcome(lambda: butler.get(rr[0], **kw))
            found = {names[0]: not isinstance(res[1], FileNotFoundError)}
            if found[names[0]]:
                store.appear = {}
                ref = outcome(lambda: store.get(rr[0], **kw))
                expect_eq((res[0], type(res[1])), (ref[0], type(ref[1])), "value read after blocking")
                if res[1] is not None:
                    return False  # refused for its arguments
        elif kind == "deferred":
            res = outcome(lambda: butler.getDeferred(rr[0], **kw))
            expect_eq(type(res[1]), type(outcome(lambda: store.getDeferred(rr[0], **kw))[1]), "result of getDeferred")
            expect_eq(now[0], start, "getDeferred blocked")
            if res[1] is None and names[0] in case["present"]:
                store.appear = {}
                got, ref = outcome(lambda: res[2].get()), outcome(lambda: store.get(rr[0], **kw))
                expect_eq((got[0], type(got[1])), (ref[0], type(ref[1])), "value read through a deferred handle")
            return False
        elif kind == "stored":
            found = {names[0]: butler.stored(rr[0])}
        else:
            result = butler.stored_many(iter(rr))
            expect_eq(set(result), set(rr), "stored_many answers for other datasets")
            found = {n: result[r] for n, r in zip(names, rr, strict=True)}
        waited = now[0] - start
    for n, f in found.items():
        limit = limits[n]
        if n not in case["present"]:
            expect_eq(f, False, f"{n} does not exist")
            if limit is not None and len(names) == 1:
                expect(waited > limit or limit == 0.0, "gave up before the timeout", n, waited, limit)
        elif n not in delay:
            expect_eq(f, True, f"{n} exists")
            if len(names) == 1:
                expect_eq(waited, 0.0, "waited for a dataset that exists")
        elif limit is None or limit == 1000.0:
            expect_eq(f, True, f"{n} appears after {delay[n]} attempts, before the timeout")
        elif not f:
            expect(waited > limit or limit == 0.0, "gave up before the timeout", n, waited, limit)
    finite = [lim for n, lim in limits.items() if lim is not None and not found[n]]
    if finite and len(names) == 1:
        expect(waited <= max(finite) + 2.0, "waited much longer than the timeout", waited, finite)
    return bool(delay) and waited > 0


FACETS = [
    Facet("caching", cache_cases, check_cache, quick=4000),
    Facet("handle", handle_cases, check_handle, quick=2000, shards=2),
    Facet("blocking", blocking_cases, check_blocking, quick=1500, shards=2),
]
