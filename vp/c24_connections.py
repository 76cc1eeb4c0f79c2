"""C24: connections configured by templates or code describe one consistent interface."""
from __future__ import annotations

import dataclasses
import warnings

from core import Facet, expect, expect_eq, must_raise
from hypothesis import strategies as st

PROPERTY = "C24"
RULE = ("class hierarchies (one or two roots, one derived class; up to four connections each, redeclared across categories, "
        "re-used objects, templates, deprecations), config classes with name and template overrides, and generated "
        "__init__ programs that delete, replace, add and re-use connections and change dimensions, against a dictionary "
        "model; classes and earlier instances are compared with snapshots after every instantiation. Non-trivial: at least "
        "three connections and at least one override or __init__ operation. invalid: declarations and configurations with "
        "one injected error must be refused; non-trivial always.")

CATS = {"Input": "inputs", "PrerequisiteInput": "prerequisiteInputs", "Output": "outputs", "InitInput": "initInputs", "InitOutput": "initOutputs"}
NAMES = ["a", "b", "c", "d", "e", "f_g"]
TEMPLATES = ["t", "u", "v1"]


@st.composite
def connection(draw, templates=()):
    kind = draw(st.sampled_from(sorted(CATS)))
    parts = draw(st.lists(st.sampled_from(["foo", "bar", "_x"] + ["{" + t + "}" for t in templates] * 2), min_size=1, max_size=3))
    c = {"kind": kind, "name": "".join(parts) if parts[0] != "_x" else "n" + "".join(parts), "sc": draw(st.sampled_from(["StructuredDataDict", "TaskMetadata"])),
         "doc": draw(st.sampled_from(["", "some doc"])), "multiple": draw(st.booleans()), "deprecated": draw(st.sampled_from([None] * 4 + ["going away"]))}
    if "Init" not in kind:
        c["dimensions"] = draw(st.lists(st.sampled_from(["instrument", "visit", "detector", "tract"]), unique=True, max_size=3))
        c["isCalibration"] = draw(st.booleans())
        if kind != "Output":
            c["minimum"] = draw(st.sampled_from([0, 1] + ([2] if c["multiple"] else [])))
            c["deferLoad"] = draw(st.booleans())
        if kind == "Input":
            c["deferGraphConstraint"] = draw(st.booleans())
    return c


@st.composite
def klass(draw, known=(), names=NAMES, inherited=(), root=False):
    own = {t: draw(st.sampled_from(["", "deep", "x_"])) for t in draw(st.lists(st.sampled_from(TEMPLATES), unique=True, max_size=2))}
    avail = sorted({*own, *inherited})
    conns = {}
    for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=4, min_size=int(root))):
        others = [k for k in (*known, *conns) if k != n]
        if others and draw(st.integers(0, 5)) == 0:
            conns[n] = {"reuse": draw(st.sampled_from(others))}
        else:
            conns[n] = draw(connection(avail))
    return {"templates": own, "conns": conns, "deprecated": draw(st.lists(st.sampled_from(avail), unique=True, max_size=1)) if avail else [],
            "dims": draw(st.lists(st.sampled_from(["instrument", "visit", "detector"]), unique=True, max_size=3)) if root or draw(st.booleans()) else None}


@st.composite
def configured(draw, names, templates):
    over = {n: draw(st.sampled_from(["renamed", "pre{t}", "{u}post", "{{lit}}"] if templates else ["renamed", "other", "{{lit}}"]))
            for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=2))} if names else {}
    over = {n: v for n, v in over.items() if all("{" + t + "}" not in v or t in templates for t in TEMPLATES)}
    tm = {t: draw(st.sampled_from(["", "val", 7, 2.5, True, "{brace}"])) for t in draw(st.lists(st.sampled_from(templates), unique=True, max_size=2))} if templates else {}
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        op = draw(st.sampled_from(["del", "replace", "add", "reuse", "discard", "dim+", "dim-", "dims"]))
        if op in ("del", "discard"):
            ops.append([op, draw(st.sampled_from(NAMES))])
        elif op in ("replace", "add"):
            ops.append(["set", draw(st.sampled_from(NAMES + ["new1", "new2"])), draw(connection())])
        elif op == "reuse":
            ops.append([op, draw(st.sampled_from(NAMES + ["new1"])), draw(st.sampled_from(NAMES))])
        elif op == "dims":
            ops.append([op, draw(st.lists(st.sampled_from(["instrument", "tract"]), unique=True))])
        else:
            ops.append([op, draw(st.sampled_from(["instrument", "visit", "tract"]))])
    return {"names": over, "templates": tm, "ops": ops}


@st.composite
def cases(draw):
    roots = [draw(klass(root=True, names=NAMES[:4]))]
    if draw(st.integers(0, 2)) == 0:
        roots.append(draw(klass(root=True, names=NAMES[4:])))
    known = [n for r in roots for n in r["conns"]]
    inherited = sorted({t for r in roots for t in r["templates"]})
    derived = draw(klass(known=known, inherited=inherited)) if len(roots) == 2 or draw(st.booleans()) else None
    names = sorted({*known, *(derived["conns"] if derived else ())})
    templates = sorted({*inherited, *(derived["templates"] if derived else ())})
    return {"roots": roots, "derived": derived, "config": draw(st.sampled_from(["own", "inherit"])),
            "uses": draw(st.lists(configured(names, templates), min_size=1, max_size=3)),
            "root_uses": draw(st.lists(configured(sorted(roots[0]["conns"]), sorted(roots[0]["templates"])), max_size=1))}


FIELDS = ["name", "storageClass", "doc", "multiple", "deprecated", "dimensions", "isCalibration", "minimum", "deferLoad", "deferGraphConstraint"]


def make(c):
    import lsst.pipe.base.connectionTypes as cT

    kw = {"name": c["name"], "storageClass": c["sc"], "doc": c["doc"], "multiple": c["multiple"], "deprecated": c["deprecated"]}
    for k in ("dimensions", "isCalibration", "minimum", "deferLoad", "deferGraphConstraint"):
        if k in c:
            kw[k] = tuple(c[k]) if k == "dimensions" else c[k]
    return getattr(cT, c["kind"])(**kw)


def describe(obj):
    d = {f: getattr(obj, f) for f in FIELDS if hasattr(obj, f)}
    if "dimensions" in d:
        d["dimensions"] = sorted(d["dimensions"])
    return (type(obj).__name__, tuple(sorted((k, repr(v)) for k, v in d.items())))


def model(c):
    """Description of a connection from its case, as ``describe`` gives it."""
    d = {"name": c["name"], "storageClass": c["sc"], "doc": c["doc"], "multiple": c["multiple"], "deprecated": c["deprecated"]}
    for k in ("dimensions", "isCalibration", "minimum", "deferLoad", "deferGraphConstraint"):
        if k in c:
            d[k] = sorted(c[k]) if k == "dimensions" else c[k]
    return (c["kind"], tuple(sorted((k, repr(v)) for k, v in d.items())))


def snapshot(x):
    return {"all": {k: describe(v) for k, v in x.allConnections.items()}, "attrs": {k: describe(getattr(x, k)) for k in x.allConnections},
            "dims": sorted(x.dimensions), **{cat: sorted(getattr(x, cat)) for cat in CATS.values()}}


def expected_snapshot(conns, dims):
    d = {k: model(c) for k, c in conns.items()}
    return {"all": d, "attrs": d, "dims": sorted(dims), **{cat: sorted(k for k, c in conns.items() if CATS[c["kind"]] == cat) for cat in CATS.values()}}


def build_class(name, bases, spec, init, known):
    """Create a connections class the way a class statement does; ``known`` maps inherited names to (object, case)."""
    import types

    from lsst.pipe.base import PipelineTaskConnections

    model_conns = {}

    def body(ns):
        ns["__module__"] = __name__
        for n, c in sorted(spec["conns"].items(), key=lambda i: ("reuse" in i[1], i[0])):
            if "reuse" in c:
                src = c["reuse"]
                if src in spec["conns"] and src in model_conns:
                    ns[n] = ns[src]
                    model_conns[n] = model_conns[src]
                elif src in known:
                    ns[n] = known[src][0]
                    model_conns[n] = known[src][1]
            else:
                ns[n] = make(c)
                model_conns[n] = c
        if init is not None:
            ns["__init__"] = init

    kw = {}
    if spec["dims"] is not None:
        kw["dimensions"] = tuple(spec["dims"])
    if spec["templates"]:
        kw["defaultTemplates"] = dict(spec["templates"])
    if spec["deprecated"]:
        kw["deprecatedTemplates"] = {t: "no longer" for t in spec["deprecated"]}
    cls = types.new_class(name, tuple(bases) or (PipelineTaskConnections,), kw, body)
    return cls, model_conns


def check(case):
    import lsst.pipe.base as pb

    program = {"ops": []}
    log = []

    def init(self, *, config=None):
        log.append(config)
        for op in program["ops"]:
            kind = op[0]
            if kind == "del":
                if op[1] in self.allConnections:
                    delattr(self, op[1])
                    expect(not hasattr(self, op[1]), f"{op[1]} can still be accessed after it was deleted")
            elif kind == "discard":
                for cat in CATS.values():
                    getattr(self, cat).discard(op[1])
            elif kind == "set":
                obj = make(op[2])
                setattr(self, op[1], obj)
                expect_eq(describe(getattr(self, op[1])), describe(obj), f"{op[1]} after assignment")
            elif kind == "reuse":
                if op[2] in self.allConnections:
                    setattr(self, op[1], getattr(self, op[2]))
            elif kind == "dim+":
                self.dimensions.add(op[1])
            elif kind == "dim-":
                self.dimensions.discard(op[1])
            elif kind == "dims":
                self.dimensions = set(op[1])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        classes = []
        known = {}
        dims = None
        templates = {}
        for i, spec in enumerate(case["roots"]):
            cls, m = build_class(f"Root{i}Connections", (), spec, init if i == 0 else None, {})
            classes.append((cls, dict(m), set(spec["dims"]), dict(spec["templates"])))
            known.update({k: (cls.allConnections[k], c) for k, c in m.items()})
            dims = dims or set(spec["dims"])
        dims = set(case["roots"][0]["dims"])
        for spec in case["roots"][::-1]:
            templates.update(spec["templates"])
        conns = {k: c for k, (_, c) in known.items()}
        final = classes[0][0]
        if case["derived"] is not None:
            spec = case["derived"]
            final, m = build_class("DerivedConnections", [c[0] for c in classes], spec, None, known)
            conns.update(m)
            templates.update(spec["templates"])
            if spec["dims"] is not None:
                dims = set(spec["dims"])
            classes.append((final, dict(conns), dims, dict(templates)))
        for cls, m, d, t in classes:
            expect_eq(snapshot(cls), expected_snapshot(m, d), f"declared interface of {cls.__name__}")
            expect_eq(dict(cls.defaultTemplates), t, f"templates of {cls.__name__}")

        root_cfg = type(pb.PipelineTaskConfig)("RootConfig", (pb.PipelineTaskConfig,), {"__module__": __name__}, pipelineConnections=classes[0][0])
        if case["config"] == "inherit":
            kw = {} if final is classes[0][0] else {"pipelineConnections": final}
            cfg_cls = type(root_cfg)("SubConfig", (root_cfg,), {"__module__": __name__}, **kw)
        else:
            cfg_cls = type(root_cfg)("OwnConfig", (pb.PipelineTaskConfig,), {"__module__": __name__}, pipelineConnections=final)

    instances = []
    todo = [(final, cfg_cls, conns, dims, templates, u) for u in case["uses"]]
    todo[1:1] = [(classes[0][0], root_cfg, classes[0][1], classes[0][2], classes[0][3], u) for u in case["root_uses"]]
    nontrivial = False
    for cls, cfg_cls, conns, dims, templates, use in todo:
        use = {**use, "names": {n: v for n, v in use["names"].items() if n in conns}}
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            config = cfg_cls()
            for n, c in conns.items():
                expect_eq(getattr(config.connections, n), c["name"], f"default name of connection {n}")
            for n, v in use["names"].items():
                setattr(config.connections, n, v)
            for t, v in use["templates"].items():
                setattr(config.connections, t, v)
            config.validate()
            n_before = len(caught)
            program["ops"] = use["ops"]
            instance = cls(config=config)
            deprecations = [w for w in caught[n_before:] if issubclass(w.category, FutureWarning)]
        values = {t: str(use["templates"].get(t, v)) for t, v in templates.items()}
        want = {}
        for n, c in conns.items():
            want[n] = {**c, "name": use["names"].get(n, c["name"]).format(**values),
                       "doc": c["doc"] if c["deprecated"] is None else f"{c['doc']}\n{c['deprecated']}"}
        want_dims = set(dims)
        hidden = {}
        for op in use["ops"]:
            if op[0] == "del":
                want.pop(op[1], None)
                hidden.pop(op[1], None)
            elif op[0] == "discard":
                if op[1] in want:
                    hidden[op[1]] = want[op[1]]
            elif op[0] == "set":
                want[op[1]] = op[2]
                hidden.pop(op[1], None)
            elif op[0] == "reuse":
                if op[2] in want:
                    want[op[1]] = want[op[2]]
                    hidden.pop(op[1], None)
            elif op[0] == "dim+":
                want_dims.add(op[1])
            elif op[0] == "dim-":
                want_dims.discard(op[1])
            elif op[0] == "dims":
                want_dims = set(op[1])
        for n in hidden:
            want.pop(n)
        expect_eq(log[-1] is config and instance.config is config, True, "config given to the connections")
        want_snap = expected_snapshot(want, want_dims)
        got = snapshot(instance)
        for k in want_snap:
            expect_eq(got[k], want_snap[k], f"{k} of a {cls.__name__} instance")
        for n in conns:
            if n not in want and n not in hidden:
                expect(not hasattr(instance, n), f"removed connection {n} can still be accessed")
        expect_eq({n for n in conns if n in want and any(n in str(w.message) for w in deprecations)} >=
                  {n for n, c in want.items() if n in conns and c["deprecated"]}, True, "deprecation warnings")
        if not any(c["deprecated"] for c in want.values()):
            expect_eq([str(w.message) for w in deprecations], [], "deprecation warnings without deprecated connections")
        from lsst.pipe.base.connections import iterConnections
        for cat in CATS.values():
            expect_eq(sorted(describe(c) for c in iterConnections(instance, cat)), sorted(model(c) for c in want.values() if CATS[c["kind"]] == cat), f"iterConnections {cat}")
        expect_eq(sorted(describe(c) for c in iterConnections(instance, list(CATS.values()))), sorted(model(c) for c in want.values()), "iterConnections of all")
        instances.append((instance, got))
        # Nothing may be changed once the object is complete.
        for n in [*sorted(want)[:2], "brand_new"]:
            with must_raise(TypeError, msg=f"connection {n} was set on a complete connections object"):
                setattr(instance, n, make({"kind": "Output", "name": "late", "sc": "StructuredDataDict", "doc": "", "multiple": False, "deprecated": None, "dimensions": []}))
        for n in sorted(want)[:2]:
            with must_raise(TypeError, msg=f"connection {n} was deleted from a complete connections object"):
                delattr(instance, n)
            with must_raise(dataclasses.FrozenInstanceError, msg="a connection was changed in place"):
                getattr(instance, n).name = "changed"
        with must_raise(TypeError, AttributeError, msg="the listing of connections was changed"):
            instance.allConnections["zzz"] = None
        for inst, snap in instances:
            expect_eq(snapshot(inst), snap, "an earlier connections object changed")
        for c, m, d, t in classes:
            expect_eq(snapshot(c), expected_snapshot(m, d), f"interface of class {c.__name__} after instantiation")
            expect_eq(dict(c.defaultTemplates), t, f"templates of {c.__name__}")
        nontrivial |= len(conns) >= 3 and bool(use["names"] or use["templates"] or use["ops"])
    with must_raise(ValueError, msg="connections object without config"):
        final()
    return nontrivial


# ------------------------------------------------------------------- invalid

INVALID = ["dims-str", "dims-int", "dims-none", "conn-dims-str", "conn-dims-int", "minimum", "no-template-default", "one-template-missing", "template-clash-used",
           "template-clash-unused", "template-clash-inherited", "reserved", "template-type", "template-none", "bad-template-in-name", "template-check", "not-connections", "no-connections",
           "config-type"]


@st.composite
def invalid_cases(draw):
    return {"what": draw(st.sampled_from(INVALID)), "name": draw(st.sampled_from(NAMES)), "t": draw(st.sampled_from(TEMPLATES)),
            "kind": draw(st.sampled_from(sorted(CATS))), "reserved": draw(st.sampled_from(["dimensions", *CATS.values(), "allConnections"])),
            "other": draw(connection())}


def check_invalid(case):
    import types

    import lsst.pipe.base as pb
    import lsst.pipe.base.connectionTypes as cT

    what, n, t = case["what"], case["name"], case["t"]
    other = "zz"
    kind = case["kind"] if "Init" not in case["kind"] else "Input"

    def declare(conns, bases=(pb.PipelineTaskConnections,), **kw):
        def body(ns):
            for k, v in conns.items():
                ns[k] = v() if callable(v) else v
        return types.new_class("C", bases, kw, body)

    def conn(**kw):
        return getattr(cT, kind)(**{"name": "foo", "storageClass": "StructuredDataDict", "dimensions": (), **kw})

    def refused(f, *exc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with must_raise(*(exc or (TypeError,)), msg=f"invalid declaration accepted: {case}"):
                f()

    extra = lambda: make(case["other"])  # noqa: E731
    if what == "dims-str":
        refused(lambda: declare({n: conn}, dimensions="visit"))
    elif what == "dims-int":
        refused(lambda: declare({n: conn}, dimensions=3))
    elif what == "dims-none":
        refused(lambda: declare({n: conn, other: extra}))
    elif what == "conn-dims-str":
        refused(lambda: conn(dimensions="visit"))
    elif what == "conn-dims-int":
        refused(lambda: conn(dimensions=3))
    elif what == "minimum":
        if kind != "Output":
            refused(lambda: conn(minimum=2, multiple=False))
    elif what == "no-template-default":
        refused(lambda: declare({n: lambda: conn(name="a{" + t + "}"), other: extra}, dimensions=()))
    elif what == "one-template-missing":
        refused(lambda: declare({n: lambda: conn(name="a{" + t + "}{zzz}"), other: extra}, dimensions=(), defaultTemplates={t: "x"}))
    elif what == "template-clash-used":
        refused(lambda: declare({n: lambda: conn(name="a{" + other + "}"), other: extra}, dimensions=(), defaultTemplates={other: "x"}))
    elif what == "template-clash-unused":
        refused(lambda: declare({n: conn, other: extra}, dimensions=(), defaultTemplates={n: "x"}))
    elif what == "template-clash-inherited":
        base = declare({other: lambda: conn(name="q{" + n + "}")}, dimensions=(), defaultTemplates={n: "x"})
        refused(lambda: declare({n: conn}, bases=(base,)))
    elif what == "reserved":
        refused(lambda: declare({n: conn, case["reserved"]: extra}, dimensions=()), AttributeError)
    elif what in ("template-type", "template-none", "bad-template-in-name"):
        cls = declare({n: lambda: conn(name="a{" + t + "}")}, dimensions=(), defaultTemplates={t: "x"})
        cfg = type(pb.PipelineTaskConfig)("Cfg", (pb.PipelineTaskConfig,), {}, pipelineConnections=cls)()
        if what == "template-type":
            for bad in ([1], {"a": 1}, object()):
                refused(lambda bad=bad: setattr(cfg.connections, t, bad), TypeError, ValueError)
        elif what == "template-none":
            def use():
                setattr(cfg.connections, t, None)
                cfg.validate()
                cls(config=cfg)
            refused(use, Exception)
        else:
            def use():
                setattr(cfg.connections, n, "a{unknown}")
                cfg.validate()
                cls(config=cfg)
            refused(use, Exception)
    elif what == "template-check":
        from lsst.pex.config import Config
        from lsst.pipe.base.config import TemplateField

        cfg = type("Cfg", (Config,), {"f": TemplateField(dtype=str, doc="doc", default="ok", check=lambda v: str(v).startswith("o"))})()
        cfg.f = "other"
        refused(lambda: setattr(cfg, "f", "bad"), ValueError)
        expect_eq(cfg.f, "other", "value of a checked template after a refused assignment")
    elif what == "not-connections":
        refused(lambda: type(pb.PipelineTaskConfig)("Cfg", (pb.PipelineTaskConfig,), {}, pipelineConnections=dict), ValueError, TypeError)
    elif what == "no-connections":
        refused(lambda: type(pb.PipelineTaskConfig)("Cfg", (pb.PipelineTaskConfig,), {}), NameError, TypeError)
    elif what == "config-type":
        from lsst.pex.config import Config

        cls = declare({n: conn}, dimensions=())
        refused(lambda: cls(config=Config()), ValueError)
        refused(lambda: cls(config=None), ValueError)
    return True


FACETS = [
    Facet("declared", cases, check, quick=2500),
    Facet("invalid", invalid_cases, check_invalid, quick=800, shards=2),
]
