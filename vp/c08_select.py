"""C08: pipeline subset expressions against set algebra over the declared connections."""
from __future__ import annotations

import networkx
import pgraphs as pg
from core import Facet, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C08"
RULE = ("random pipeline graphs with subsets (some names shared between dataset types, tasks and subsets), random expression "
        "trees printed with random redundant parentheses, spacing and qualifiers, evaluated by set algebra on an independently "
        "built dependency graph; names that do not exist, ambiguous names, wrong qualifiers and subsets after < or > must be "
        "rejected. The graph returned by select() must contain exactly those tasks with their edges. Facet 'text': random token "
        "strings, accepted exactly when a reference recursive-descent parser accepts them, with the same meaning. Non-trivial: "
        "expression with at least two operators selecting a non-empty proper subset, or text accepted with an operator.")
ASSUMPTIONS = ["expression syntax as documented: | lowest, then &, then the prefix operators ~ < <= > >="]


class Bad(Exception):
    pass


@st.composite
def graphs(draw):
    spec = draw(pg.graph_specs(errors=False, simple=True, max_tasks=7, min_tasks=2))
    labels = [t["label"] for t in spec["tasks"]]
    # sometimes give a dataset type the name of a task
    if draw(st.integers(0, 3)) == 0:
        victim, new = draw(st.sampled_from([f"d{i}" for i in range(4)])), draw(st.sampled_from(labels))
        for t in spec["tasks"]:
            for c in t["conns"]:
                if c["name"] == victim:
                    c["name"] = new
    names = sorted({c["name"] for t in spec["tasks"] for c in t["conns"]})
    subs = {}
    for name in draw(st.lists(st.sampled_from(["s1", "s-2", "d0", "d1"]), max_size=3, unique=True)):
        subs[name] = {"members": sorted(draw(st.sets(st.sampled_from(labels))))}
    return {"tasks": spec["tasks"], "subsets": subs, "resolve": draw(st.booleans())}, labels, names


def exprs(labels, names, subs):
    # mostly valid leaves: the right qualifier or none
    pairs = ([("T", x) for x in labels] * 2 + [("D", x) for x in names] * 2 + [("D", x + "_metadata") for x in labels] +
             [("S", x) for x in subs] * 2)
    every = [*labels, *names, *subs, *[x + "_metadata" for x in labels], *[x + "_config" for x in labels], "nope", "T", "D"]
    good = st.sampled_from(pairs).flatmap(lambda p: st.sampled_from([[None, p[1]], [p[0], p[1]]]))
    rare = st.tuples(st.sampled_from([None, "T", "D", "S"]), st.sampled_from(every)).map(list)
    ident = st.one_of(*[good] * 14, rare)
    good_dir = st.sampled_from([p for p in pairs if p[0] != "S"]).flatmap(lambda p: st.sampled_from([[None, p[1]], [p[0], p[1]]]))
    leaf = st.one_of(ident.map(lambda i: ["id", i]),
                     st.tuples(st.sampled_from(["<", "<=", ">", ">="]), st.one_of(*[good_dir] * 14, ident)).map(lambda p: ["dir", p[0], p[1]]))
    return st.recursive(leaf, lambda c: st.one_of(c.map(lambda x: ["not", x]),
                                                  st.tuples(c, c).map(lambda p: ["or", *p]),
                                                  st.tuples(c, c).map(lambda p: ["and", *p])), max_leaves=7)


@st.composite
def cases(draw):
    g, labels, names = draw(graphs())
    e = draw(exprs(labels, names, sorted(g["subsets"])))
    return {**g, "expr": e, "noise": draw(st.lists(st.integers(0, 5), min_size=4, max_size=4))}


PREC = {"or": 0, "and": 1, "not": 2, "dir": 2, "id": 3}


def render(e, noise, depth=0):
    n = noise[depth % len(noise)]
    sp = " " * (n % 3)

    def sub(c, min_prec):
        s = render(c, noise, depth + 1)
        if PREC[c[0]] < min_prec or n == 5:
            return f"({sp}{s})"
        return s

    if e[0] == "id":
        q, name = e[1]
        return name if q is None else f"{q}:{name}"
    if e[0] == "dir":
        q, name = e[2]
        return f"{e[1]}{sp}" + (name if q is None else f"{q}:{name}")
    if e[0] == "not":
        return f"~{sp}{sub(e[1], 2)}"
    if e[0] == "and":
        return f"{sub(e[1], 1)}{sp}&{sp}{sub(e[2], 2)}"
    return f"{sub(e[1], 0)}{sp}|{sp}{sub(e[2], 1)}"


class Model:
    def __init__(self, tasks, subsets):
        self.labels = {t["label"] for t in tasks}
        self.subsets = subsets
        self.readers, self.init_readers, self.writers, self.init_writers = {}, {}, {}, {}
        self.names = set()
        for t in tasks:
            for e in pg.edges_of(t):
                self.names.add(e["name"])
                d = ({True: self.init_readers, False: self.readers} if e["read"] else
                     {True: self.init_writers, False: self.writers})[e["init"]]
                d.setdefault(e["name"], set()).add(t["label"])
        self.flow = networkx.DiGraph()
        self.flow.add_nodes_from(self.labels)
        for name, ws in self.writers.items():
            for w in ws:
                for r in self.readers.get(name, ()):
                    self.flow.add_edge(w, r)

    def ident(self, q, name):
        t, d, s = name in self.labels, name in self.names, name in self.subsets
        if q is None:
            if t + d + s != 1:
                raise Bad(f"{name}: {t} {d} {s}")
            return "T" if t else ("D" if d else "S")
        if not {"T": t, "D": d, "S": s}[q]:
            raise Bad(name)
        return q

    def ev(self, e):
        if e[0] == "id":
            k, name = self.ident(*e[1]), e[1][1]
            if k == "T":
                return {name}
            if k == "S":
                return set(self.subsets[name]["members"])
            if self.init_writers.get(name):
                raise Bad("init output")
            return set(self.writers.get(name, ()))
        if e[0] == "dir":
            op, (q, name) = e[1], e[2]
            k = self.ident(q, name)
            if k == "S":
                raise Bad("subset")
            up = op[0] == "<"
            if k == "T":
                r = networkx.ancestors(self.flow, name) if up else networkx.descendants(self.flow, name)
                return set(r) | ({name} if op.endswith("=") else set())
            if self.init_writers.get(name) and op != ">":
                raise Bad("init output")
            if up:
                r = set()
                for w in self.writers.get(name, ()):
                    r |= networkx.ancestors(self.flow, w) | ({w} if op == "<=" else set())
                return r
            r = set(self.writers.get(name, ())) if op == ">=" else set()
            for c in self.readers.get(name, set()) | self.init_readers.get(name, set()):
                r |= {c} | networkx.descendants(self.flow, c)
            return r
        if e[0] == "not":
            return self.labels - self.ev(e[1])
        a, b = self.ev(e[1]), self.ev(e[2])
        return a | b if e[0] == "or" else a & b


def ops(e):
    return 0 if e[0] == "id" else 1 if e[0] == "dir" else 1 + sum(ops(x) for x in e[1:])


def setup_graph(case):
    from lsst.daf.butler import DimensionUniverse, MissingDatasetTypeError
    from lsst.pipe.base import pipeline_graph as m

    if pg.has_cycle(case["tasks"]):
        return None
    try:
        g = pg.build(case["tasks"], case["subsets"])
    except (m.PipelineGraphError, ValueError) as exc:
        # a subset may not have the label of a task; dataset type names are free
        expect(set(case["subsets"]) & {t["label"] for t in case["tasks"]}, f"pipeline rejected: {exc}")
        return None
    if case["resolve"]:
        try:
            g.resolve(dimensions=DimensionUniverse(), dataset_types={})
        except (m.PipelineGraphError, MissingDatasetTypeError):
            return None
    return g


def check(case):
    from lsst.pipe.base.pipeline_graph import InvalidExpressionError

    g = setup_graph(case)
    if g is None:
        return {"nontrivial": False, "labels": ["invalid-pipeline"]}
    model = Model(case["tasks"], case["subsets"])
    text = render(case["expr"], case["noise"])
    try:
        want = model.ev(case["expr"])
    except Bad as exc:
        want = None
    before = pg.observe(g)
    try:
        got = g.select_tasks(text)
    except InvalidExpressionError as exc:
        expect(want is None, f"expression {text!r} rejected: {exc}")
        return {"nontrivial": ops(case["expr"]) >= 1, "labels": ["rejected"]}
    expect(want is not None, f"invalid expression {text!r} accepted", sorted(got))
    expect_eq(got, want, f"tasks selected by {text!r}")
    sub = g.select(text)
    expect_eq(set(sub.tasks), want, f"tasks of the graph selected by {text!r}")
    expect_eq(pg.graph_edge_keys(sub), pg.model_edge_keys([t for t in case["tasks"] if t["label"] in want]), "edges of the selected graph")
    for t in want:
        expect(sub.tasks[t].config == g.tasks[t].config, "config of a selected task")
    expect_eq(pg.observe(g), before, "select changed the graph")
    return {"nontrivial": ops(case["expr"]) >= 2 and 0 < len(want) < len(model.labels), "labels": ["resolved" if case["resolve"] else "raw"]}


# --------------------------------------------------------------------------------------------------------------
# arbitrary text

TOK = ["(", ")", "~", "|", "&", "<", "<=", ">", ">=", "alpha", "T:alpha", "beta", "gamma", "D:d0", "d1", "S:s1", " ", "\t", "X:alpha", ":",
       "T:", "a-b", "1", "T:D:x", "=", "alpha.x", "&&", "\n", "\u00e9", "_a", "< alpha", ">=T:beta"]


@st.composite
def text_cases(draw):
    g, labels, names = draw(graphs())
    return {**g, "text": "".join(draw(st.lists(st.one_of(st.sampled_from(TOK), st.sampled_from(labels)), min_size=1, max_size=9)))}


def tokenize(s):
    """Reference tokenizer; identifiers are words of letters, digits, and underscores, optionally qualified."""
    import re

    out, i = [], 0
    rx = re.compile(r"(?P<ws>[ \t]+)|(?P<id>(?:[TDS]:)?[\w-]+)|(?P<op><=|>=|[()~|&<>])")
    while i < len(s):
        mt = rx.match(s, i)
        if not mt:
            raise Bad(f"token at {i}")
        if mt.lastgroup != "ws":
            out.append((mt.lastgroup, mt.group()))
        i = mt.end()
    return out


def parse(s):
    toks = tokenize(s) + [("end", "")]
    pos = 0

    def peek():
        return toks[pos][1] if toks[pos][0] == "op" else toks[pos][0]

    def take():
        nonlocal pos
        pos += 1
        return toks[pos - 1]

    def union():
        e = inter()
        while peek() == "|":
            take()
            e = ["or", e, inter()]
        return e

    def inter():
        e = unary()
        while peek() == "&":
            take()
            e = ["and", e, unary()]
        return e

    def ident():
        if peek() != "id":
            raise Bad("identifier")
        t = take()[1].split(":")
        return [None, t[0]] if len(t) == 1 else t

    def unary():
        p = peek()
        if p == "~":
            take()
            return ["not", unary()]
        if p in ("<", "<=", ">", ">="):
            take()
            return ["dir", p, ident()]
        if p == "(":
            take()
            e = union()
            if peek() != ")":
                raise Bad("paren")
            take()
            return e
        return ["id", ident()]

    e = union()
    if peek() != "end":
        raise Bad("trailing")
    return e


def text_check(case):
    from lsst.pipe.base.pipeline_graph import InvalidExpressionError

    g = setup_graph(case)
    if g is None:
        return {"nontrivial": False, "labels": ["invalid-pipeline"]}
    model = Model(case["tasks"], case["subsets"])
    e = None
    try:
        e = parse(case["text"])
        want = model.ev(e)
    except Bad:
        want = None
    try:
        got = g.select_tasks(case["text"])
    except InvalidExpressionError as exc:
        expect(want is None, f"expression {case['text']!r} rejected: {exc}")
        return {"nontrivial": e is not None, "labels": ["rejected" if e is not None else "malformed"]}
    expect(want is not None, f"invalid expression {case['text']!r} accepted", sorted(got))
    expect_eq(got, want, f"tasks selected by {case['text']!r}")
    return {"nontrivial": ops(e) >= 1, "labels": ["accepted"]}


FACETS = [Facet("algebra", cases, check, quick=3200, shards=8), Facet("text", text_cases, text_check, quick=3200, shards=8)]
