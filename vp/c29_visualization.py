"""C29: pipeline and quantum graph renderings show exactly the graph."""
from __future__ import annotations

import html
import io
import re

import networkx
import pgraphs
from core import Facet, expect, expect_eq, must_raise
from hypothesis import strategies as st

PROPERTY = "C29"
RULE = ("pipeline: pipelines made of blocks of 1..4 (rarely 11..18) similar tasks with shared, private or chained inputs, "
        "up to 26 outputs each, init datasets and metadata reads, resolved, resolved for display or unresolved, rendered as "
        "text (several widths, penalties, colours), dot and mermaid with random display options and parsed back; "
        "non-trivial: at least two displayed edges, and at least one node merged or merging off. "
        "layout: random DAGs of up to 14 nodes through Layout and Printer; non-trivial: at least 4 edges. "
        "quantum: generated quantum graphs through the dot/mermaid visualizers and graph2dot/graph2mermaid, old and new "
        "graph classes; non-trivial: at least one quantum-to-quantum edge.")

UP, DOWN, LEFT, RIGHT = "╵", "╷", "╴", "╶"
DECOMP = {" ": "", "╴": "╴", "╵": "╵", "╶": "╶", "╷": "╷", "╯": "╴╵", "─": "╴╶", "╮": "╴╷", "╰": "╵╶", "│": "╵╷",
          "╭": "╶╷", "┴": "╴╵╶", "┤": "╴╵╷", "┬": "╴╶╷", "├": "╵╶╷", "┼": "╴╵╶╷"}
SYMBOLS = {"■": ("T", False), "○": ("D", False), "▣": ("I", False), "▥": ("T", True), "◍": ("D", True), "▤": ("I", True)}
ANSI = re.compile(r"\x1B\[[0-?]*[ -/]*[@-~]")


# --------------------------------------------------------------------------------- parsers


def parse_text(text, symbols=SYMBOLS):
    """Follow the lines of a text rendering: (rows, edges, footnotes); rows = [(symbol, text)], edges by row index."""
    lines = ANSI.sub("", text).split("\n")
    expect(lines[-1] == "", "the rendering ends with a newline")
    lines.pop()
    rows, edges = [], set()
    origin, alive, down = {}, {}, {}
    i = 0
    while i < len(lines):
        if i + 1 >= len(lines) or not any(s in lines[i + 1] for s in symbols):
            break
        conn, node = lines[i], lines[i + 1]
        i += 2
        xs = [x for x, ch in enumerate(node) if ch in symbols]
        X = xs[0]
        me = len(rows)
        cells = list(node[:X])
        rest = node[X + 1:]
        # cells of the graph area to the right of the symbol run until the text
        k = 0
        while k < len(rest) and rest[k] in " │":
            k += 1
        right = rest[:k]
        rows.append((node[X], rest[k:]))
        here = {x: ch for x, ch in enumerate(cells)} | {X + 1 + j: ch for j, ch in enumerate(right)}
        for x, ch in here.items():
            expect(ch in " │", "unexpected character %r in node row %r", ch, node)
        for x in set(range(len(conn))) | set(down):
            ch = conn[x] if x < len(conn) else " "
            expect(ch in DECOMP, "unexpected character %r in connector row %r", ch, conn)
            parts = DECOMP[ch]
            if down.get(x) == "line":
                expect(UP in parts, "the line in column %d stops in nowhere above row %d of\n%s", x, me, text)
            if UP in parts:
                expect(alive.get(x), "a line in column %d of row %d comes from nowhere in\n%s", x, me, text)
            if x == X:
                if UP in parts:
                    edges.add((origin[x], me))
                continue
            side = RIGHT if x < X else LEFT
            if UP in parts and side in parts:
                # the horizontal part has to reach the node
                step = 1 if x < X else -1
                edges.add((origin[x], me))
                for y in range(x + step, X, step):
                    p = DECOMP[conn[y]]
                    expect((LEFT in p and RIGHT in p) or conn[y] == "│", "broken horizontal line in %r", conn)
                expect((LEFT if x < X else RIGHT) in DECOMP[conn[X]], "horizontal line does not reach its node in %r", conn)
            if DOWN in parts:
                expect(UP in parts, "a line starts in nowhere in %r", conn)
                expect(here.get(x) == "│", "the line in column %d is broken at row %d of\n%s", x, me, text)
        for x in list(alive):
            if x == X:
                continue
            ch = conn[x] if x < len(conn) else " "
            if here.get(x) == "│":
                expect(DOWN in DECOMP[ch], "a line appears in column %d at row %d of\n%s", x, me, text)
                down[x] = "line"
            else:
                alive.pop(x)
                down.pop(x, None)
        for x, ch in here.items():
            expect(ch != "│" or alive.get(x), "a line appears in column %d at row %d of\n%s", x, me, text)
        origin[X] = me
        alive[X] = True
        down[X] = "node"
    return rows, edges, lines[i:]


def text_graph(text, details, width):
    rows, edges, foot = parse_text(text)
    notes = {}
    cur = None
    for line in foot:
        m = re.fullmatch(r"\[(\d+)\]", line)
        if m:
            cur = int(m[1])
            notes[cur] = []
        else:
            expect(cur is not None, "unexpected line %r after the graph", line)
            notes[cur].append(line.strip())
    nodes = []
    used = set()
    for sym, desc in rows:
        kind, merged = SYMBOLS[sym]
        m = re.search(r"\.\.\.\[(\d+)\]$", desc)
        if m:
            n = int(m[1])
            expect(n in notes, "footnote [%d] is missing", n)
            used.add(n)
            full = " ".join(notes[n])
            expect(full.startswith(desc[:m.start()].rstrip()) or desc[:m.start()].strip() == "", "footnote %r does not continue %r", full, desc)
            desc = full
        desc = desc.strip()
        names, sep, extra = desc.partition(": ") if details(kind) else (desc, "", "")
        if details(kind) and not sep and desc.endswith(":"):
            names = desc[:-1]
        members = names.split(", ")
        expect_eq(len(members) > 1, merged, f"symbol {sym} for {members}")
        nodes.append((kind, tuple(members), extra.strip()))
    expect_eq(used, set(notes), "footnotes in use")
    return nodes, {(a, b) for a, b in edges}


STYLE_KIND = {"#B1F2EF": "T", "#F5F5F5": "D", "#F4DEFA": "I"}


def strip_tags(s):
    return html.unescape(re.sub(r"<[^>]*>", "", s)).replace("\xa0", " ").strip()


def split_labels(cells):
    names, info, overflow = [], {}, None
    for raw in cells:
        t = strip_tags(raw)
        if raw.startswith("<B>") or raw.startswith("<b>"):
            m = re.fullmatch(r"and (\d+) more, continued in \[(\d+)\]", t)
            m2 = re.fullmatch(r"\.\.\.more details in \[(\d+)\]", t)
            m3 = re.fullmatch(r"\[(\d+)\]", t)
            if m:
                overflow = ("to", int(m[2]), int(m[1]))
            elif m2:
                overflow = ("to", int(m2[1]), None)
            elif m3:
                overflow = ("from", int(m3[1]), None)
            else:
                names.append(t)
        elif t.startswith("dimensions:"):
            info["dimensions"] = t[len("dimensions:"):].strip()
        elif t.startswith("storage class:"):
            info["storage class"] = t[len("storage class:"):].strip()
        else:
            expect("class" not in info, "unexpected label %r", t)
            info["class"] = t
    return names, info, overflow


def combine(raw_nodes, edge_ids, hidden_ids):
    """Join overflow boxes with their nodes; return nodes list and edges by index."""
    continued = {}
    for nid, kind, names, info, ov in raw_nodes:
        if ov and ov[0] == "from":
            continued.setdefault(ov[1], []).extend(names)
    nodes, index = [], {}
    refs = set()
    for nid, kind, names, info, ov in raw_nodes:
        if ov and ov[0] == "from":
            continue
        if ov:
            expect(ov[1] in continued, "box [%d] is missing", ov[1])
            expect(ov[1] not in refs, "box [%d] used twice", ov[1])
            refs.add(ov[1])
            if ov[2] is not None:
                expect_eq(len(continued[ov[1]]), ov[2], "names continued elsewhere")
            names = names + continued[ov[1]]
        expect(nid not in index, "node ID %s is used twice", nid)
        index[nid] = len(nodes)
        nodes.append((kind, tuple(names), info))
    expect_eq(refs, set(continued), "boxes of continued names")
    edges = set()
    for a, b in edge_ids:
        expect(a in index and b in index, "edge %s -> %s between nodes that are not shown", a, b)
        edges.add((index[a], index[b]))
    return nodes, edges


def dot_graph(text):
    lines = text.splitlines()
    expect(lines[0].startswith("digraph") and lines[-1] == "}", "not a dot graph")
    raw, edges, hidden = [], [], []
    for line in lines[1:-1]:
        if re.match(r"(graph|node|edge) \[", line) or line.startswith("{rank=sink"):
            continue
        m = re.fullmatch(r'"([^"]*)" -> "([^"]*)"(?: \[(.*)\])?;', line)
        if m:
            (hidden if "invis" in (m[3] or "") else edges).append((m[1], m[2]))
            continue
        m = re.fullmatch(r'"([^"]*)" \[(.*), label=<<TABLE[^>]*>(.*)</TABLE>>\];', line)
        expect(m, "cannot parse the dot line %r", line)
        fill = re.search(r'fillcolor="([^"]*)"', m[2])[1]
        cells = re.findall(r"<TD[^>]*>(.*?)</TD>", m[3])
        raw.append((m[1], STYLE_KIND[fill], *split_labels(cells)))
    return combine(raw, edges, hidden)


def mermaid_graph(text):
    lines = [line for line in text.splitlines() if line.strip()]
    expect(lines[0] == "flowchart TD", "not a mermaid flowchart")
    raw, edges, cls = {}, [], {}
    for line in lines[1:]:
        if line.startswith(("classDef ", "linkStyle ")):
            continue
        m = re.fullmatch(r"class (\S+) (\w+);", line)
        if m:
            cls[m[1]] = {"task": "T", "taskInit": "I", "dsType": "D"}[m[2]]
            continue
        m = re.fullmatch(r"(\S+) -->(?:\|.*\|)? (\S+)", line)
        if m:
            edges.append((m[1], m[2]))
            continue
        m = re.fullmatch(r'(\S+?)\["(.*)"\]', line)
        expect(m, "cannot parse the mermaid line %r", line)
        expect(m[1] not in raw, "node ID %s is used twice", m[1])
        raw[m[1]] = split_labels(m[2].split("<br>"))
    expect_eq(set(cls), set(raw), "styled nodes")
    known = {n for n in raw}
    hidden = [e for e in edges if e[1] in known and raw[e[1]][2] and raw[e[1]][2][0] == "from"]
    edges = [e for e in edges if e not in hidden]
    return combine([(k, cls[k], *v) for k, v in raw.items()], edges, hidden)


# --------------------------------------------------------------------------------- pipelines

LABELS = [a + b for a in ("", "x", "long_name_of_a_task_") for b in ("alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta")]


@st.composite
def block(draw, i):
    big = draw(st.integers(0, 24))
    return {"n": draw(st.integers(11, 18)) if big == 0 else draw(st.sampled_from([1, 1, 2, 2, 3, 4])),
            "n_out": draw(st.integers(14, 26)) if big == 1 else draw(st.sampled_from([0, 1, 1, 1, 2, 3])),
            "reads": draw(st.lists(st.sampled_from(["shared", "own", "chain", "chain", "gather", "one", "meta", "skip", "pre", "config", "own2"]),
                                   min_size=0, max_size=3, unique=True)),
            "dims": draw(st.integers(0, 3)), "cls": draw(st.sampled_from([1, 1, 2])), "log": draw(st.booleans()),
            "init": draw(st.sampled_from([[], [], ["in"], ["out"], ["chain"], ["in", "out"], ["own"]])),
            "odd": draw(st.sampled_from([None, None, None, "dims", "sc", "cls", "extra"]))}


OPTIONS = st.fixed_dictionaries({
    "dataset_types": st.sampled_from([True, True, False]), "init": st.sampled_from([False, False, True, None]),
    "dimensions": st.sampled_from([None, None, False, "full", "concise"]),
    "task_classes": st.sampled_from([False, "full", "concise", None]),
    "storage_classes": st.sampled_from([None, None, False, True]),
    "merge_input_trees": st.sampled_from([0, 1, 2, 3, 4]), "merge_output_trees": st.sampled_from([0, 1, 2, 4]),
    "merge_intermediates": st.booleans(), "include_automatic_connections": st.booleans()})


@st.composite
def pipeline_cases(draw):
    blocks = [draw(block(i)) for i in range(draw(st.integers(0 if draw(st.integers(0, 30)) == 0 else 1, 4)))]
    if sum(b["n"] for b in blocks) > 22:
        blocks = blocks[:1]
    return {"blocks": blocks, "state": draw(st.sampled_from(["resolved", "resolved", "viz", "unresolved"])),
            "options": draw(st.lists(OPTIONS, min_size=2, max_size=4)),
            "width": draw(st.sampled_from([0, 0, 40, 60, 90, 200])), "color": draw(st.sampled_from([False, False, True, ["red", "G"], None])),
            "pen": draw(st.lists(st.integers(0, 4), min_size=3, max_size=3)), "edge_labels": draw(st.booleans()),
            "tools": draw(st.integers(0, 3)), "order": draw(st.integers(0, 99999))}


DIMS = [[], ["instrument", "visit"], ["instrument", "visit", "detector"], ["skymap", "tract"]]
SCS = ["StructuredDataDict", "StructuredDataList"]


def make_tasks(blocks):
    """Expand blocks into task specs."""
    tasks = []
    prev, prev_all = [], []
    k = 0
    for bi, b in enumerate(blocks):
        mine = []
        for j in range(b["n"]):
            label = LABELS[(7 * k) % len(LABELS)] + ("" if k < len(LABELS) else str(k))
            k += 1
            odd = b["odd"] if j == 1 else None
            dims = DIMS[b["dims"]] if odd != "dims" else DIMS[(b["dims"] + 1) % 4]
            conns, seen = [], set()

            def add(kind, name, dims_, sc="StructuredDataDict"):
                if (name in seen):
                    return
                seen.add(name)
                conns.append({"conn": f"c{len(conns)}", "kind": kind, "name": name, "dims": dims_, "sc": sc, "calib": False})

            for r in b["reads"]:
                if r == "shared":
                    add("in", f"shared{bi}", DIMS[1])
                elif r == "own":
                    add("in", f"own{bi}_{j}", DIMS[2])
                elif r == "own2":
                    add("in", f"own{bi}_{j}_a", DIMS[2])
                    add("in", f"own{bi}_{j}_b", DIMS[2])
                elif r == "pre":
                    add("prereq", f"pre{bi}_{j % 2}", DIMS[3])
                elif r == "skip" and prev_all:
                    o = prev_all[(3 * j) % len(prev_all)]
                    add("in", o[0], o[1], o[2])
                elif prev:
                    src = prev[j % len(prev)]
                    if r == "chain" and src["outs"]:
                        o = src["outs"][j % len(src["outs"])]
                        add("in", *o)
                    elif r == "gather":
                        for s in prev:
                            for o in s["outs"]:
                                add("in", *o)
                    elif r == "one" and prev[0]["outs"]:
                        add("in", *prev[0]["outs"][0])
                    elif r == "meta":
                        add("in", f"{src['label']}_metadata", src["dims"], "TaskMetadata")
                    elif r == "config":
                        add("init_in", f"{src['label']}_config", [], "Config")
            if "in" in b["init"]:
                add("init_in", f"init_shared{bi}", [])
            if "own" in b["init"]:
                add("init_in", f"init_own{bi}_{j}", [])
            if "chain" in b["init"] and prev and prev[0]["init_outs"]:
                add("init_in", prev[0]["init_outs"][0], [])
            outs, init_outs = [], []
            for q in range(b["n_out"] + (1 if odd == "extra" else 0)):
                o = (f"out{bi}_{j}_{q}", dims, SCS[1] if odd == "sc" else SCS[0])
                add("out", *o)
                outs.append(o)
            if "out" in b["init"] or "chain" in b["init"]:
                add("init_out", f"init_out{bi}_{j}", [])
                init_outs.append(f"init_out{bi}_{j}")
            t = {"label": label, "cls": b["cls"] if odd != "cls" else 3 - b["cls"], "dims": dims, "log": b["log"], "value": 0, "conns": conns}
            tasks.append(t)
            mine.append({"label": label, "dims": dims, "outs": outs, "init_outs": init_outs})
        prev_all += [o for m in prev for o in m["outs"]]
        prev = mine
    return tasks


def expected(tasks, opts):
    """Graph to be displayed without merging, and node attributes."""
    full = pgraphs.nx_graph(tasks)
    auto = {f"{t['label']}_{s}" for t in tasks for s in ("config", "metadata", "log")}
    attrs = {}
    for t in tasks:
        cls = "vptasks.SpecTask" if t["cls"] == 1 else "vptasks.SpecTask2"
        attrs[("T", t["label"])] = (frozenset(t["dims"]), cls, None)
        attrs[("I", t["label"])] = (None, cls, None)
        for e in pgraphs.edges_of(t):
            attrs[("D", e["name"])] = (e["dims"], None, e["sc"])
    init = opts["init"]
    if init is None:
        g = full.copy()
    else:
        key = "I" if init else "T"
        g = networkx.DiGraph()
        for a, b in full.edges:
            if {a[0], b[0]} == {"D", key}:
                g.add_edge(a, b)
        g.add_nodes_from(n for n in full if n[0] == key)
        if not opts["dataset_types"]:
            h = networkx.DiGraph()
            h.add_nodes_from(n for n in g if n[0] == key)
            for d in g:
                if d[0] == "D":
                    for a in g.predecessors(d):
                        for b in g.successors(d):
                            h.add_edge(a, b)
            g = h
    if opts["dataset_types"] and not opts["include_automatic_connections"]:
        g.remove_nodes_from([n for n in g if n[0] == "D" and n[1] in auto and not g.out_degree(n)])
    return g, attrs


def dims_text(universe, dims, how):
    group = universe.conform(dims)
    return group


def parse_dims(universe, text, how):
    names = [x.strip(" '\"") for x in text.strip().strip("{}()[]").split(",") if x.strip(" '\"")]
    if text.startswith("SortedSequenceSet"):
        names = re.findall(r"'(\w+)'", text)
    return universe.conform(names)


def compare(g, attrs, shown, edges, opts, eff, universe, what):
    where = {}
    for i, (kind, members, info) in enumerate(shown):
        for m in members:
            n = (kind, m)
            expect(n in g, "%s shows %s, which is not to be displayed", what, n)
            expect(n not in where, "%s shows %s twice", what, n)
            where[n] = i
    expect_eq(set(where), set(g), f"{what}: displayed nodes")
    image = {(where[a], where[b]) for a, b in g.edges if where[a] != where[b]}
    expect_eq({(shown[a][1], shown[b][1]) for a, b in edges}, {(shown[a][1], shown[b][1]) for a, b in image}, f"{what}: displayed edges")
    for a, b in g.edges:
        expect(where[a] != where[b], "%s merges %s and %s, which are connected", what, a, b)
    merging = opts["merge_input_trees"] or opts["merge_output_trees"] or opts["merge_intermediates"]
    for kind, members, info in shown:
        if not merging:
            expect(len(members) == 1, "%s merges %s with merging off", what, members)
        a = {attrs[kind, m] for m in members}
        if eff["resolved"] and kind != "I":
            expect(len({universe.conform(x[0]) for x in a}) == 1, "%s merges %s with different dimensions", what, members)
        if eff["task_classes"] and kind != "D":
            expect(len({x[1] for x in a}) == 1, "%s merges %s with different task classes", what, members)
        if eff["storage_classes"] and kind == "D":
            expect(len({x[2] for x in a}) == 1, "%s merges %s with different storage classes", what, members)
        d0, c0, s0 = next(iter(a))
        if isinstance(info, dict):
            want = {}
            if eff["task_classes"] and kind != "D":
                want["class"] = c0 if eff["task_classes"] == "full" else c0.split(".")[-1]
            if eff["storage_classes"] and kind == "D":
                want["storage class"] = s0
            if eff["dimensions"] and kind != "I":
                want["dimensions"] = d0
                expect("dimensions" in info, "%s does not show the dimensions of %s", what, members)
                expect_eq(parse_dims(universe, info["dimensions"], eff["dimensions"]), universe.conform(d0), f"{what}: dimensions of {members}")
            expect_eq(set(info), set(want), f"{what}: details of {members}")
            for k in ("class", "storage class"):
                expect_eq(info.get(k), want.get(k), f"{what}: {k} of {members}")
        else:
            rest = info
            if eff["dimensions"] and kind != "I":
                m = re.match(r"\S*?[{(\[].*?[\])}]+(?= |$)", rest)
                expect(m, "%s: no dimensions in %r", what, rest)
                expect_eq(parse_dims(universe, m[0], eff["dimensions"]), universe.conform(d0), f"{what}: dimensions of {members}")
                rest = rest[m.end():].strip()
            if eff["task_classes"] and kind != "D":
                expect_eq(rest, c0 if eff["task_classes"] == "full" else c0.split(".")[-1], f"{what}: class of {members}")
            elif eff["storage_classes"] and kind == "D":
                expect_eq(rest, s0, f"{what}: storage class of {members}")
            else:
                expect_eq(rest, "", f"{what}: details of {members}")
    return any(len(m) > 1 for _, m, _ in shown), merging


def fake_colorama():
    import sys
    import types

    try:
        import colorama  # noqa: F401

        return None
    except ImportError:
        pass
    mod = types.ModuleType("colorama")

    class Codes:
        def __getattr__(self, name):
            return f"\x1b[{31 + len(name) % 7}m"

    mod.Fore = Codes()
    mod.Style = types.SimpleNamespace(RESET_ALL="\x1b[0m")
    sys.modules["colorama"] = mod
    return mod


def check_pipeline(case):
    import sys

    from lsst.daf.butler import DimensionUniverse
    from lsst.pipe.base.pipeline_graph import visualization

    universe = DimensionUniverse()
    tasks = make_tasks(case["blocks"])
    order = sorted(range(len(tasks)), key=lambda i: ((i + 1) * (case["order"] + 17)) % 10007)
    g = pgraphs.build([tasks[i] for i in order])
    resolved = case["state"] != "unresolved"
    if case["state"] == "resolved":
        g.resolve(dimensions=universe, dataset_types={})
    elif case["state"] == "viz":
        g.resolve(visualization_only=True)
    nontrivial = False
    fake = fake_colorama()
    try:
        for opts in case["options"]:
            opts = dict(opts)
            kwargs = dict(opts)
            bad = (opts["init"] is None and not opts["dataset_types"]) or (
                not resolved and bool(opts["dimensions"])) or (not resolved and opts["storage_classes"] and opts["dataset_types"])
            if bad:
                with must_raise(ValueError, msg=f"display options {opts} for a {case['state']} graph"):
                    visualization.show(g, io.StringIO(), width=0, **kwargs)
                continue
            eff = {"resolved": resolved,
                   "dimensions": opts["dimensions"] if opts["dimensions"] is not None else ("concise" if resolved else False),
                   "task_classes": opts["task_classes"] if opts["task_classes"] is not None else ("concise" if resolved else False),
                   "storage_classes": bool(opts["dataset_types"]) and (opts["storage_classes"] if opts["storage_classes"] is not None else resolved)}
            want, attrs = expected(tasks, opts)

            def details(kind):
                return bool(eff["dimensions"] or (eff["storage_classes"] if kind == "D" else eff["task_classes"]))

            buf = io.StringIO()
            pen = case["pen"]
            visualization.show(g, buf, width=case["width"], color=case["color"], column_interior_penalty=pen[0],
                               column_crossing_penalty=pen[1], column_insertion_penalty=pen[2], **kwargs)
            try:
                shown, edges = text_graph(buf.getvalue(), details, case["width"])
                m1, merging = compare(want, attrs, shown, edges, opts, eff, universe, "text")
            except AssertionError as err:
                raise type(err)(f"{err}\n{opts}\n{buf.getvalue()}") from None
            for name in ("dot", "mermaid"):
                buf = io.StringIO()
                if name == "dot":
                    visualization.show_dot(g, buf, label_edge_connections=case["edge_labels"], **kwargs)
                else:
                    visualization.show_mermaid(g, buf, **kwargs)
                try:
                    shown2, edges2 = (dot_graph if name == "dot" else mermaid_graph)(buf.getvalue())
                    compare(want, attrs, shown2, edges2, opts, eff, universe, name)
                except AssertionError as err:
                    raise type(err)(f"{err}\n{opts}\n{buf.getvalue()}") from None
                expect_eq({(k, frozenset(m)) for k, m, _ in shown2}, {(k, frozenset(m)) for k, m, _ in shown}, f"merging in {name} and text")
            nontrivial = nontrivial or (len(edges) >= 2 and (m1 or not merging))
    finally:
        if fake is not None:
            sys.modules.pop("colorama", None)
    if case["tools"] and tasks:
        from lsst.pipe.base import Pipeline
        from lsst.pipe.base.dot_tools import pipeline2dot
        from lsst.pipe.base.mermaid_tools import pipeline2mermaid

        opts = {"dataset_types": True, "init": False, "include_automatic_connections": False, "merge_input_trees": 4,
                "merge_output_trees": 4, "merge_intermediates": True}
        want, attrs = expected(tasks, opts)
        if case["tools"] == 1:
            source = list(g._iter_task_defs()) if hasattr(g, "_iter_task_defs") else None
        else:
            source = Pipeline("generated")
            for t in tasks:
                source.addTask(pgraphs.task_class(t), t["label"])
                cfg = pgraphs.task_config(t)
                source.addConfigPython(t["label"], f"config.spec = {cfg.spec!r}")
                source.addConfigOverride(t["label"], "saveLogOutput", cfg.saveLogOutput)
        if source is not None:
            buf = io.StringIO()
            pipeline2dot(source, buf)
            shown, edges = dot_graph(buf.getvalue())
            compare(want, attrs, shown, edges, opts, {"resolved": True, "dimensions": "concise", "task_classes": False, "storage_classes": True},
                    universe, "pipeline2dot")
            buf = io.StringIO()
            expand = case["edge_labels"]
            pipeline2mermaid(source, buf, expand_dimensions=expand)
            shown, edges = mermaid_graph(buf.getvalue())
            compare(want, attrs, shown, edges, opts, {"resolved": True, "dimensions": "full" if expand else "concise", "task_classes": False,
                                                      "storage_classes": True}, universe, "pipeline2mermaid")
    return nontrivial


# --------------------------------------------------------------------------------- layout


@st.composite
def layout_cases(draw):
    n = draw(st.integers(0, 14))
    dens = draw(st.sampled_from([1, 2, 3, 5]))
    edges = []
    for b in range(1, n):
        for a in draw(st.lists(st.integers(0, b - 1), max_size=dens, unique=True)):
            edges.append([a, b])
    names = draw(st.permutations([f"n{i}" for i in range(n)]))
    return {"n": n, "edges": edges, "names": list(names), "pen": draw(st.lists(st.integers(0, 5), min_size=3, max_size=3)),
            "multi": draw(st.booleans()), "default": draw(st.booleans())}


def check_layout(case):
    from lsst.pipe.base.pipeline_graph.visualization._layout import ColumnSelector, Layout
    from lsst.pipe.base.pipeline_graph.visualization._printer import make_simple_printer

    names = case["names"]
    g = networkx.MultiDiGraph() if case["multi"] else networkx.DiGraph()
    g.add_nodes_from(sorted(names))
    want = {(names[a], names[b]) for a, b in case["edges"]}
    for a, b in case["edges"]:
        g.add_edge(names[a], names[b])
        if case["multi"] and (a + b) % 3 == 0:
            g.add_edge(names[a], names[b])
    pen = case["pen"]
    layout = Layout(g) if case["default"] else Layout(g, ColumnSelector(crossing_penalty=pen[0], interior_penalty=pen[1], insertion_penalty=pen[2]))
    rows = list(layout)
    order = [r.node for r in rows]
    expect_eq(sorted(order), sorted(names), "nodes in the layout")
    expect_eq(list(layout.nodes), order, "Layout.nodes")
    done, active, where, seen = set(), {}, {}, set()
    for row in rows:
        preds = {a for a, b in want if b == row.node}
        expect(preds <= done, "node %s is drawn before %s", row.node, preds - done)
        expect(0 <= row.x <= layout.width, "column %d outside 0..%d", row.x, layout.width)
        expect_eq({o for _, o in row.connecting}, preds, f"connections into {row.node}")
        expect_eq(len(row.connecting), len(preds), f"number of connections into {row.node}")
        for x, o in row.connecting:
            expect_eq(x, where[o], f"column of {o}")
            active[o].discard(row.node)
        cont = {o: set(d) for o, d in active.items() if d}
        expect_eq({o: set(d) for _, o, d in row.continuing}, cont, f"lines passing {row.node}")
        for x, o, _ in row.continuing:
            expect_eq(x, where[o], f"column of {o}")
            expect(x != row.x, "node %s is drawn over the line from %s", row.node, o)
        done.add(row.node)
        where[row.node] = row.x
        active[row.node] = {b for a, b in want if a == row.node}
        cols = [where[o] for o in active if active[o]]
        expect(len(set(cols)) == len(cols), "two lines share a column at %s", row.node)
    printer = make_simple_printer(layout.width)
    buf = io.StringIO()
    printer.print(buf, layout)
    got, edges, foot = parse_text(buf.getvalue(), {"⬤": None})
    expect_eq([t.strip() for _, t in got], order, "printed nodes")
    expect_eq({(order[a], order[b]) for a, b in edges}, want, "printed edges")
    expect_eq(foot, [], "text after the graph")
    buf = io.StringIO()
    layout.print(buf)
    expect_eq([line.split()[-1] for line in buf.getvalue().splitlines()], order, "Layout.print")
    return len(want) >= 4


# --------------------------------------------------------------------------------- quantum graphs


@st.composite
def quantum_cases(draw):
    import synth

    return {"graph": draw(synth.graph_specs()), "lang": draw(st.sampled_from(["dot", "mermaid"])),
            "via": draw(st.sampled_from(["class", "tool", "legacy"])), "file": draw(st.booleans())}


def check_quantum(case):
    import os
    import uuid

    import synth
    from core import scratch_dir
    from lsst.pipe.base.dot_tools import graph2dot
    from lsst.pipe.base.mermaid_tools import graph2mermaid
    from lsst.pipe.base.quantum_graph import visualization as qv

    s = synth.Synth(case["graph"])
    dot = case["lang"] == "dot"
    if case["via"] == "legacy":
        with scratch_dir() as d:
            from lsst.pipe.base import QuantumGraph

            path = os.path.join(d, "g.qg")
            s.components.write(path)
            qg = QuantumGraph.loadUri(path, synth.universe())
    else:
        qg = s.components.assemble()

    def render(func):
        if not case["file"]:
            buf = io.StringIO()
            func(buf)
            return buf.getvalue()
        with scratch_dir() as d:
            path = os.path.join(d, "out.txt")
            func(path)
            with open(path) as f:
                return f.read()

    outputs = {}
    if case["via"] == "class":
        v = qv.QuantumGraphDotVisualizer() if dot else qv.QuantumGraphMermaidVisualizer()
        for name in ("bipartite", "quantum_only"):
            buf = io.StringIO()
            getattr(v, f"write_{name}")(qg, buf)
            outputs[name] = buf.getvalue()
    else:
        outputs["bipartite"] = render(lambda f: (graph2dot if dot else graph2mermaid)(qg, f))
    quanta = {q["id"]: k for k, q in s.quanta.items()}
    used = {d for q in s.quanta.values() for side in ("in", "out") for ks in q[side].values() for d in ks}
    ds = {s.datasets[k]["id"]: k for k in used}
    bip = set()
    for q in s.quanta.values():
        bip |= {(s.datasets[k]["id"], q["id"]) for ks in q["in"].values() for k in ks}
        bip |= {(q["id"], s.datasets[k]["id"]) for ks in q["out"].values() for k in ks}
    for name, text in outputs.items():
        nodes, edges = {}, []
        for line in text.splitlines():
            if dot:
                m = re.fullmatch(r'"u(\w+)" -> "u(\w+)";', line)
                n = re.fullmatch(r'"u(\w+)" \[(.*)label=<<TABLE[^>]*>(.*)</TABLE>>\];', line)
                cells = [html.unescape(c) for c in re.findall(r"<TD>(.*?)</TD>", n[3])] if n else None
            else:
                m = re.fullmatch(r"u(\w+) --> u(\w+)", line)
                n = re.fullmatch(r'u(\w+)\["(.*)"\]', line)
                cells = [c.strip("*") for c in n[2].split("<br>")] if n else None
            if m:
                edges.append((uuid.UUID(m[1]), uuid.UUID(m[2])))
            elif n:
                i = uuid.UUID(n[1])
                expect(i not in nodes, "%s shows %s twice", name, i)
                nodes[i] = cells
        expect(len(set(edges)) == len(edges), "%s shows an edge twice", name)
        if name == "bipartite":
            expect_eq(sorted(map(str, nodes)), sorted(map(str, [*quanta, *ds])), "nodes of the bipartite rendering")
            expect_eq({(str(a), str(b)) for a, b in edges}, {(str(a), str(b)) for a, b in bip}, "edges of the bipartite rendering")
        else:
            expect_eq(sorted(map(str, nodes)), sorted(map(str, quanta)), "nodes of the quantum rendering")
            expect_eq({(str(a), str(b)) for a, b in edges}, {(str(a), str(b)) for a, b in s.id_edges()}, "edges of the quantum rendering")
        for i, cells in nodes.items():
            label, v = quanta[i] if i in quanta else ds[i]
            dk = s.quanta[quanta[i]]["dk"] if i in quanta else s.datasets[ds[i]]["dk"]
            expect(label in cells, "%s is not in the label %s", label, cells)
            if i not in quanta:
                run = s.datasets[ds[i]]["run"]
                expect(f"run: {run}" in cells or f"run: {run!r}" in cells, "run %s is not in the label %s", run, cells)
            for key, val in synth.data_id(dk, v).required.items():
                expect(f"{key} = {val}" in cells or f"{key}={val}" in cells, "%s=%s is not in the label %s", key, val, cells)
    return bool(s.edges)


FACETS = [Facet("pipeline", pipeline_cases, check_pipeline, quick=1500),
          Facet("layout", layout_cases, check_layout, quick=3000, shards=4),
          Facet("quantum", quantum_cases, check_quantum, quick=300, shards=4)]
