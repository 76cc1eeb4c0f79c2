"""C04: task configuration is the documented ordered composition of overrides."""
from __future__ import annotations

import ast
import copy
import os

import pipes
from core import Facet, Violation, expect, expect_eq, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C04"
TECHNIQUE = "property-based testing (Hypothesis): ordered overrides against an independent interpreter"
RULE = ("random sequences of override sources (instrument config paths, config files, inline python, key/value pairs of "
        "every field type and textual form, parameters) given in a YAML document, through the Pipeline API and through "
        "ConfigOverrides; the resulting configuration is compared field by field with one obtained by assigning the "
        "same values one after the other, and invalid values must be refused. Order-sensitive sources (increments, "
        "copies between fields) make wrong orders visible. Non-trivial: at least three sources of at least two kinds.")

VALS = {
    "i": [3, -2, "7", "-4", "0x10", "None", None, "parameters.p0", "parameters.p1", "1_000", "parameters.p3"],
    "f": [2.5, 1, "0.25", "-1e3", "parameters.p1", "3", None],
    "s": ["word", "two words", "'quoted'", "parameters.p2", "parameters.nope", "MODULE_CONSTANT", "a-b", "x.y.z", "", "None", "[", "f(x)", "r'raw'", "parameters.p3", "parameters.p-x"],
    "b": [True, False, "True", "False", "None"],
    "li": [[4, 5], "[1, -2, 3]", "(7, 8)", [], ["1", "2"], "[]", "parameters.p3", ["3", "None"]],
    "ls": [["q", "r"], "[aa, bb]", "['x', 'y']", ["MODULE_CONSTANT", "z"], "('only',)"],
    "d": [{"k": 2, "m": 3}, "{'z': -9}", {"k": "5"}, {}, "parameters.p3", {"k": "None"}],
    "ds": [{"k": "w"}, "{'z': foo}", {"k": "MODULE_CONSTANT", "q": "a b"}, {"k": "None", "q": "True"}],
    "ch": ["two", "three", "'one'"],
    "rng": [0, 10, "4", 7],
    "sub.a": [9, "8", "parameters.p0"],
    "sub.b": ["zz", "None", "deep value"],
    "sub.items": [[1.5], "[2, 3.5]", ["4"]],
    "connections.tpl": ["nm", 5, "parameters.p2", "7"],
    "connections.outp": ["out_name", "{tpl}_o", "parameters.p2"],
    "saveLogOutput": [False, "False", True],
}
BAD = [["rng", 11], ["rng", "-1"], ["i", "word"], ["i", "1.5"], ["ch", "four"], ["nofield", 1], ["sub.nofield", 2], ["nosub.a", 3],
       ["b", 3], ["li", ["a"]], ["d", {"k": "word"}], ["connections.nofield", "x"], ["f", "word"], ["i", [1]], ["sub.a", 666], ["sub.a", "666"]]
PARAMS = {"p0": [5, 6, "12", "nope"], "p1": [1, 2, 3], "p2": ["pname", "other", "MODULE_CONSTANT"], "p3": [0, "", None, False, [1, 2], {"k": 4}, []], "p-x": ["dashed"]}


@st.composite
def kvs(draw, bad_ok=True):
    if bad_ok and draw(st.integers(0, 24)) == 0:
        return list(draw(st.sampled_from(BAD)))
    k = draw(st.sampled_from(sorted(VALS)))
    return [k, draw(st.sampled_from(VALS[k]))]


@st.composite
def stmts(draw):
    """One statement of a file or inline snippet."""
    return draw(st.one_of(
        st.sampled_from([["inc", 1], ["inc", 10], ["dbl"], ["copy"], ["append"], ["cond"], ["sub"], ["module"]]),
        st.tuples(st.just("param"), st.sampled_from(["p1"])).map(list),
        st.tuples(st.just("set"), st.sampled_from([["i", 40], ["f", 0.125], ["s", "snip"], ["li", [9]], ["ch", "three"], ["sub.a", 77], ["d", {"n": 1}]] * 3 + [["rng", 12], ["nofield", 1]] ), ).map(list)))


@st.composite
def sources(draw, inst_ok=True):
    kind = draw(st.sampled_from(["kv", "kv", "kv", "py", "file"]))
    if kind == "kv":
        pairs = draw(st.lists(kvs(), min_size=1, max_size=3, unique_by=lambda p: p[0]))
        return {"kind": "kv", "pairs": pairs}
    return {"kind": kind, "stmts": draw(st.lists(stmts(), min_size=1, max_size=3))}


@st.composite
def cases(draw):
    blocks = []
    for _ in range(draw(st.integers(0, 3))):
        b = {"files": draw(st.lists(st.lists(stmts(), min_size=1, max_size=2), max_size=2)) if draw(st.booleans()) else [],
             "py": draw(st.lists(stmts(), min_size=1, max_size=3)) if draw(st.booleans()) else None,
             "kv": draw(st.lists(kvs(), max_size=3, unique_by=lambda p: p[0]))}
        if b["files"] or b["py"] or b["kv"]:
            blocks.append(b)
    return {"params": {k: draw(st.sampled_from(PARAMS[k])) for k in PARAMS},
            "inst": draw(st.one_of(st.none(), st.lists(st.lists(stmts(), max_size=2), max_size=2))),
            "blocks": blocks, "imported": draw(st.integers(0, len(blocks))),
            "api": draw(st.lists(sources(), max_size=4)),
            "late_param": draw(st.one_of(st.none(), st.integers(20, 30))),
            "klass": draw(st.sampled_from("AB")),
            "direct": draw(st.booleans())}


def render(stmts_):
    out = []
    for s in stmts_:
        out.append({
            "inc": lambda: f"config.i = (config.i or 0) + {s[1]}", "dbl": lambda: "config.i = (config.i or 0) * 2",
            "copy": lambda: "config.s = str(config.i)", "append": lambda: "config.ls = list(config.ls) + [str(len(config.ls))]",
            "cond": lambda: "if config.b:\n    config.f = 99.0\nelse:\n    config.b = True", "sub": lambda: "config.sub.a = config.sub.a + 1\nconfig.sub.b = 'n'",
            "module": lambda: "tmp = 'made'\nconfig.s = tmp + '-up'",
            "param": lambda: f"config.i = parameters.{s[1]} + 1000", "set": lambda: f"config.{s[1][0]} = {s[1][1]!r}"}[s[0]]())
    return "\n".join(out) + "\n"


def setpath(config, path, value):
    *parents, last = path.split(".")
    for x in parents:
        config = getattr(config, x)
    if last not in config._fields:
        raise AttributeError(last)
    setattr(config, last, value)


def interpret(config, stmts_, params):
    for s in stmts_:
        k = s[0]
        if k == "inc":
            config.i = (config.i or 0) + s[1]
        elif k == "dbl":
            config.i = (config.i or 0) * 2
        elif k == "copy":
            config.s = str(config.i)
        elif k == "append":
            config.ls = list(config.ls) + [str(len(config.ls))]
        elif k == "cond":
            if config.b:
                config.f = 99.0
            else:
                config.b = True
        elif k == "sub":
            config.sub.a = config.sub.a + 1
            config.sub.b = "n"
        elif k == "module":
            config.s = "made-up"
        elif k == "param":
            config.i = params[s[1]] + 1000
        else:
            setpath(config, s[1][0], copy.deepcopy(s[1][1]))


MODULE = {"MODULE_CONSTANT": "from_module"}


class Names(ast.NodeTransformer):
    def visit_Name(self, node):
        return ast.copy_location(ast.Constant(MODULE.get(node.id, node.id)), node)


def literal(text):
    """Documented reading of a textual value: a python literal in which bare names stand for module variables or
    for themselves; anything else is the text itself."""
    try:
        tree = ast.parse(text, mode="eval").body
    except SyntaxError:
        return text
    for n in ast.walk(tree):
        if not isinstance(n, (ast.Name, ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.UnaryOp, ast.USub, ast.Load)):
            return text
    try:
        return ast.literal_eval(Names().visit(tree))
    except Exception:
        return text


def value_of(v, params, substitute=True):
    if substitute and isinstance(v, str) and v.startswith("parameters."):
        if v[len("parameters."):] in params:
            v = copy.deepcopy(params[v[len("parameters."):]])
    if isinstance(v, str):
        v = literal(v)
    if isinstance(v, list):
        v = [literal(x) if isinstance(x, str) else x for x in v]
    elif isinstance(v, dict):
        v = {k: literal(x) if isinstance(x, str) else x for k, x in v.items()}
    return v


def apply_kv(config, pairs, params, substitute=True):
    for k, v in pairs:
        setpath(config, k, copy.deepcopy(value_of(v, params, substitute)))


def comparable(config):
    import vptasks

    d = config.toDict()
    return pipes.tag(d)


def check(case):
    import vptasks
    from lsst.pipe.base import Pipeline
    from lsst.pipe.base.configOverrides import ConfigOverrides
    from lsst.pipe.base.pipelineIR import ParametersIR

    params = dict(case["params"])
    if case["late_param"] is not None and not case["direct"]:
        params["p1"] = case["late_param"]
    want = vptasks.ChainConfig()
    kinds = set()
    count = 0
    try:
        for f in case["inst"] or []:
            interpret(want, [s for s in f if s[0] != "param"], params)
            kinds.add("inst")
        for b in case["blocks"]:
            for f in b["files"]:
                interpret(want, f, params)
                kinds.add("file")
                count += 1
            if b["py"] is not None:
                interpret(want, b["py"], params)
                kinds.add("py")
                count += 1
            if b["kv"]:
                apply_kv(want, b["kv"], params, not case["direct"])
                kinds.add("kv")
                count += 1
        for s in case["api"]:
            if s["kind"] == "kv":
                apply_kv(want, s["pairs"], params, not case["direct"])
            else:
                interpret(want, s["stmts"], params)
            kinds.add(s["kind"])
            count += 1
        want.validate()
        ok = True
        wanted = comparable(want)
    except Exception as exc:
        ok = False
        err = exc
    task = getattr(vptasks, "Task" + case["klass"])
    with scratch_dir() as d:
        os.environ["VP_DIR"] = d
        nfile = [0]

        def mkfile(stmts_, name=None):
            nfile[0] += 1
            name = name or f"cfg{nfile[0]}.py"
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(render(stmts_))
            return path if nfile[0] % 2 else path.replace(d, "$VP_DIR")

        inst_dirs = []
        for n, f in enumerate(case["inst"] or []):
            mkfile([s for s in f if s[0] != "param"], f"inst{n}/{task._DefaultName}.py")
            mkfile([["set", ["s", "wrong file"]]], f"inst{n}/other.py")
            inst_dirs.append(os.path.join(d, f"inst{n}"))
        os.environ["VP_INST_PATHS"] = os.pathsep.join(inst_dirs)

        def run():
            if case["direct"]:
                cfg = vptasks.ChainConfig()
                ov = ConfigOverrides()
                ov.addParameters(ParametersIR(dict(params)))
                if case["inst"] is not None:
                    ov.addInstrumentOverride(vptasks.InstConfigured(), task._DefaultName)
                for b in case["blocks"]:
                    for f in b["files"]:
                        ov.addFileOverride(os.path.expandvars(mkfile(f)))
                    if b["py"] is not None:
                        ov.addPythonOverride(render(b["py"]))
                    for k, v in b["kv"]:
                        ov.addValueOverride(k, copy.deepcopy(v))
                for s in case["api"]:
                    if s["kind"] == "kv":
                        for k, v in s["pairs"]:
                            ov.addValueOverride(k, copy.deepcopy(v))
                    elif s["kind"] == "py":
                        ov.addPythonOverride(render(s["stmts"]))
                    else:
                        ov.addFileOverride(os.path.expandvars(mkfile(s["stmts"])))
                ov.applyTo(cfg)
                cfg.validate()
                return cfg
            yb = [{"file": [mkfile(f) for f in b["files"]], "python": render(b["py"]) if b["py"] is not None else None,
                   "rest": dict(b["kv"])} for b in case["blocks"]]
            cls = "vptasks.Task" + case["klass"]
            base = {"description": "d", "instrument": "vptasks.InstConfigured" if case["inst"] is not None else None,
                    "parameters": dict(case["params"]), "tasks": {"lbl": {"class": cls, "config": yb[case["imported"]:] or None}},
                    "contracts": [], "subsets": {}, "steps": []}
            if case["imported"]:
                first = dict(base, parameters={}, tasks={"lbl": {"class": cls, "config": yb[: case["imported"]]}})
                f = os.path.join(d, "imported.yaml")
                with open(f, "w") as s_:
                    s_.write(pipes.dump(pipes.to_yaml_dict(first)))
                text = pipes.dump(pipes.to_yaml_dict(base, [f]))
            else:
                text = pipes.dump(pipes.to_yaml_dict(base))
            p = Pipeline.fromString(text)
            for s in case["api"]:
                if s["kind"] == "kv":
                    for k, v in s["pairs"]:
                        p.addConfigOverride("lbl", k, copy.deepcopy(v))
                elif s["kind"] == "py":
                    p.addConfigPython("lbl", render(s["stmts"]))
                else:
                    p.addConfigFile("lbl", mkfile(s["stmts"]))
            if case["late_param"] is not None:
                p.addConfigOverride("parameters", "p1", case["late_param"])
            return p.to_graph().tasks["lbl"].config

        if not ok:
            try:
                got = run()
            except Exception:
                return {"nontrivial": True, "labels": ["refused"] + sorted(kinds)}
            raise Violation(f"invalid overrides accepted (reference: {type(err).__name__}: {err}); result {got.toDict()}")
        got = run()
        expect_eq(comparable(got), wanted, "configuration")
        if not case["direct"]:
            # the configuration of a task in a graph cannot be changed any more
            try:
                got.s = "changed"
            except Exception:
                pass
            expect_eq(got.s, want.s, "configuration of a task in a graph after an assignment")
    return {"nontrivial": count >= 3 and len(kinds) >= 2, "labels": sorted(kinds) + ["direct" if case["direct"] else "pipeline"]}


# ------------------------------------------------------------------------------------------------ textual values

lit = st.recursive(st.one_of(st.integers(-50, 50).map(str), st.floats(-9, 9, allow_nan=False, width=16).map(repr), st.sampled_from(["True", "None", "name", "'text'", '"q"', "MODULE_CONSTANT", "1j", "b'x'", "a.b", "f()", "1+1", "x y", "not 1", "~3", "-name", "-'a'", "", "lambda: 0", "*a", "..."])),
                   lambda inner: st.one_of(st.lists(inner, max_size=3).map(lambda v: "[" + ", ".join(v) + "]"), st.lists(inner, min_size=2, max_size=3).map(lambda v: "(" + ", ".join(v) + ")"),
                                           st.lists(st.tuples(st.sampled_from(["'k'", "kk", "3"]), inner), max_size=2).map(lambda v: "{" + ", ".join(f"{a}: {b}" for a, b in v) + "}")), max_leaves=5)


def ref_eval(text):
    """Independent evaluator of textual values."""
    try:
        tree = ast.parse(text, mode="eval").body
    except Exception:
        return text

    def go(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return MODULE.get(n.id, n.id)
        if isinstance(n, ast.List):
            return [go(x) for x in n.elts]
        if isinstance(n, ast.Tuple):
            return tuple(go(x) for x in n.elts)
        if isinstance(n, ast.Dict):
            return {go(k): go(v) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.Set):
            return {go(x) for x in n.elts}
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = go(n.operand)
            if not isinstance(v, (int, float, complex)):
                raise ValueError("sign of a non-number")
            return -v
        raise ValueError("not a literal")

    try:
        return go(tree)
    except Exception:
        return text


def check_text(case):
    """A value override on a field that accepts anything records exactly what the value was read as."""
    import vptasks
    from lsst.pipe.base.configOverrides import ConfigOverrides

    text = case["text"]
    if "-name" in text or "-'a'" in text:
        return {"nontrivial": False, "labels": ["unspecified"]}
    want = ref_eval(text)
    if isinstance(want, list):  # elements of lists that are text are read once more
        want = [ref_eval(x) if isinstance(x, str) else x for x in want]
    elif isinstance(want, dict):
        want = {k: ref_eval(x) if isinstance(x, str) else x for k, x in want.items()}

    class Holder:
        _fields = {"x": None}

    Holder.__module__ = "vptasks"
    h = Holder()
    ov = ConfigOverrides()
    ov.addValueOverride("x", text)
    ov.applyTo(h)
    expect_eq(pipes.tag(h.x) if not isinstance(h.x, (set, bytes)) else h.x, pipes.tag(want) if not isinstance(want, (set, bytes)) else want, f"value read from {text!r}")
    return {"nontrivial": want != text, "labels": [type(want).__name__]}


# ------------------------------------------------------------------------------------------------ contracts

TERMS = ["{a}.i == {b}.i", "{a}.i < {b}.i + 3", "{a}.sub.a != {b}.sub.a", "{a}.b or {b}.b", "not {a}.b", "{a}.s == 'x' or {b}.i > 3",
         "{a}.i + {b}.i == {c}.i", "({a}.i <\n {b}.i)", "len({a}.li) <= {b}.i", "{a}.nofield == 1", "{a}.i", "{a}.connections.tpl == {b}.connections.tpl"]


@st.composite
def contract_cases(draw):
    labels = draw(st.lists(st.sampled_from(["ta", "tb", "tc", "t", "ta2"]), min_size=1, max_size=3, unique=True))
    fields = {"i": st.integers(0, 6), "b": st.booleans(), "sub.a": st.integers(0, 3), "s": st.sampled_from(["x", "y"]),
              "li": st.lists(st.integers(0, 3), max_size=3), "connections.tpl": st.sampled_from(["n", "m"])}

    def kv():
        k = draw(st.sampled_from(sorted(fields)))
        return [k, draw(fields[k])]

    contracts = []
    for _ in range(draw(st.integers(1, 4))):
        abc = [draw(st.sampled_from(labels)) for _ in range(3)]
        expr = draw(st.sampled_from(TERMS)) if draw(st.integers(0, 9)) else draw(st.sampled_from(["True", "False", "nolabel.i == 1", "1 +"]))
        contracts.append([expr.format(a=abc[0], b=abc[1], c=abc[2]) if "{" in expr else expr, draw(st.sampled_from([None, "why", "a: b"]))])
    return {"tasks": {x: [kv() for _ in range(draw(st.integers(0, 4)))] for x in labels}, "contracts": contracts,
            "imported": draw(st.integers(0, len(contracts))), "late": [[draw(st.sampled_from(labels)), *kv()] for _ in range(draw(st.integers(0, 2)))],
            "param": draw(st.one_of(st.none(), st.integers(0, 6)))}


def check_contracts(case):
    """Contracts are judged on the final configurations: satisfied -> the graph is made; otherwise an error naming it."""
    import vptasks
    from lsst.pipe.base import Pipeline
    from lsst.pipe.base.pipelineIR import ContractError

    configs = {}
    rest = {}
    for label, pairs in case["tasks"].items():
        pairs = [list(p) for p in pairs]
        if case["param"] is not None and pairs and pairs[0][0] == "i":
            pairs[0][1] = "parameters.pp"
        rest[label] = dict(pairs)
        c = configs[label] = vptasks.ChainConfig()
        apply_kv(c, rest[label].items(), {"pp": case["param"]})
    for label, k, v in case["late"]:
        setpath(configs[label], k, copy.deepcopy(v))
    # Contracts of the importing document come first.
    ordered = case["contracts"]
    bad, error = [], False
    for expr, msg in ordered:
        try:
            if not eval(expr, {}, dict(configs)):
                bad.append([expr, msg])
        except Exception:
            error = True
    with scratch_dir() as d:
        base = {"description": "d", "instrument": None, "parameters": {} if case["param"] is None else {"pp": case["param"]},
                "tasks": {x: {"class": "vptasks.TaskA", "config": [{"file": [], "python": None, "rest": r}] if r else None} for x, r in rest.items()},
                "contracts": [[*c, []] for c in ordered[case["imported"]:]], "subsets": {}, "steps": []}
        imports = None
        if case["imported"]:
            f = os.path.join(d, "imported.yaml")
            with open(f, "w") as s:
                s.write(pipes.dump(pipes.to_yaml_dict(dict(base, tasks={}, contracts=[[*c, []] for c in ordered[:case["imported"]]]))))
            imports = [f]
        p = Pipeline.fromString(pipes.dump(pipes.to_yaml_dict(base, imports)))
        for label, k, v in case["late"]:
            p.addConfigOverride(label, k, copy.deepcopy(v))
        try:
            # Connections of both tasks have the same names unless their templates differ; that is not judged here.
            for label in list(rest):
                p.addConfigOverride(label, "connections.outp", "out_" + label)
            g = p.to_graph()
        except ContractError as exc:
            expect(bad, f"contracts that are satisfied were reported as failing: {exc}")
            expect(any(e in str(exc) and (m is None or m in str(exc)) for e, m in bad), f"the error does not name a failing contract: {exc}; failing: {bad}")
        except Exception as exc:
            expect(error, f"{type(exc).__name__} for contracts that can be evaluated: {exc}")
        else:
            expect(not bad and not error, f"unsatisfied or broken contracts accepted: {bad or ordered}")
            for label, c in configs.items():
                expect_eq(g.tasks[label].config.i, c.i, "field i")
    return {"nontrivial": len(ordered) > 1 and len(rest) > 1, "labels": ["failing" if bad else "broken" if error else "satisfied"]}


FACETS = [Facet("compose", cases, check, quick=4000, thorough=60000),
          Facet("contracts", contract_cases, check_contracts, quick=2000, thorough=30000),
          Facet("text", lambda: lit.map(lambda t: {"text": t}), check_text, quick=4000, thorough=60000)]
