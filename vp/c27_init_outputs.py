"""C27: init-outputs, configs and package versions are written once and stay compatible."""
from __future__ import annotations

import os

import hypothesis.strategies as st
from lsst.daf.butler import Butler, DatasetType, MissingDatasetTypeError
from lsst.daf.butler.registry import ConflictingDefinitionError

import synth
import vptasks
import wf
from core import Facet, expect, expect_eq, must_raise, scratch_dir

PROPERTY = "C27"
RULE = ("prepare: generated pipelines/graphs (1..3 tasks with chained init-inputs and init-outputs) and 2..6 preparations of one or "
        "two output runs, through the pipeline graph, predicted graph, legacy graph, quantum-backed butler or "
        "SeparablePipelineExecutor.pre_execute_qgraph, whole or one step at a time, with equal or different configurations and "
        "package versions, with existing datasets allowed or not, with a failing write or lost artifacts in between; non-trivial: "
        "at least two preparations of the same run. register: generated pipelines with some dataset types registered before, "
        "compatibly or not, then registration and checks with random flags; non-trivial: at least one dataset type registered "
        "before and at least one conflict or omission.")

PKGS = [{"a": "1"}, {"a": "1", "b": "2"}, {"a": "2"}, {"b": "2"}, {"a": "1", "b": "3"}, {"c": "1"}]


@st.composite
def small_specs(draw):
    spec = draw(synth.graph_specs(max_tasks=3, max_det=1))
    # more init datasets than usual
    made = []
    for t in spec["tasks"]:
        t["conns"] = [c for c in t["conns"] if not c["kind"].startswith("init")]
        for j in range(draw(st.integers(0, 2))):
            src = draw(st.sampled_from(made)) if made and draw(st.booleans()) else f"rawinit{j}"
            if src not in [c["name"] for c in t["conns"]]:
                t["conns"].append({"conn": f"ii{j}", "kind": "init_in", "name": src, "sc": "StructuredDataDict"})
        new = []
        for j in range(draw(st.integers(0, 2))):
            t["conns"].append({"conn": f"io{j}", "kind": "init_out", "name": f"init_{t['label']}_{j}", "sc": "StructuredDataDict"})
            new.append(f"init_{t['label']}_{j}")
        made += new
    return spec


@st.composite
def prepare_cases(draw):
    spec = draw(small_specs())
    kind = draw(st.sampled_from(["graph", "graph", "pipeline"]))
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        op = draw(st.sampled_from(["all", "all", "all", "configs", "packages", "init", "lose", "crash", "sep"]))
        ops.append({"op": op, "via": draw(st.sampled_from(["full", "legacy", "full"])),
                    "value": draw(st.sampled_from([0, 0, 0, 1])), "pkg": draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5])),
                    "existing": draw(st.sampled_from([True, True, True, False])), "run": draw(st.sampled_from([0, 0, 0, 1])),
                    "k": draw(st.integers(0, 7)), "at": draw(st.sampled_from(["before", "after"])),
                    "flags": draw(st.lists(st.booleans(), min_size=2, max_size=2))})
    return {"spec": spec, "kind": kind, "qbb": draw(st.integers(0, 2)) == 0 and kind == "graph", "ops": ops}


class Crash(RuntimeError):
    pass


class World:
    def __init__(self, d, case):
        self.case = case
        self.kind = case["kind"]
        self.flows = {}
        self.root = None
        self.state = {0: {}, 1: {}}
        """run index -> {dataset key: (content, dataset ID)} for stored init-outputs"""
        self.d = d

    def run_name(self, r):
        return ["u/out", "u/out2"][r]

    def flow(self, r, value):
        """The graph of a run with a configuration value."""
        if (r, value) not in self.flows:
            spec = dict(self.case["spec"])
            spec["out_run"] = self.run_name(r)
            f = wf.Flow(self.d, spec, mode="qbb" if self.case["qbb"] else "full", value=value, salt=f"run{r}" if r else "", repo=self.root,
                        inputs=False, task_class="vptasks.SpecTask")
            if self.root is None:
                self.root = f.root
            b = Butler.from_config(self.root, writeable=True)
            # inputs have the same IDs in all graphs
            for k in f.overall:
                f.s.datasets[k]["id"] = synth.uuid.uuid5(synth.NS, repr(("input", k)))
            names = {k[0] for k in f.overall}
            for m in [*f.s.components.init_quanta.root, *f.s.components.quantum_datasets.values()]:
                for xs in m.inputs.values():
                    for x in xs:
                        if x.dataset_type_name in names:
                            x.dataset_id = f.s.datasets[x.dataset_type_name, wf_values(f, x)]["id"]
            f.graph.register_dataset_types(b)
            for k in f.overall:
                if not b.stored(f.ref(k)):
                    b.put(wf.input_content(k), f.ref(k))
            f.attach(b)
            wf.close(b)
            f.qg = f.s.components.assemble()
            self.flows[r, value] = f
        return self.flows[r, value]

    def expected(self, f, label, conn, k):
        if conn == "packages":
            return None
        if conn == "_config":
            return {"config": f.value, "spec": f.graph.tasks[label].config.spec}
        return f.init_content(label, conn)

    def keys(self, f):
        return {k: (label, conn) for label, i in f.s.init.items() for conn, k in i["out"].items()}

    def observe(self, r):
        """Stored init-outputs of a run: {key: (content, ID)}."""
        f = self.flow(r, 0)
        out = {}
        if self.case["qbb"]:
            b = f.qg.make_init_qbb(self.root)
            for k in self.keys(f):
                if b.stored(f.ref(k)):
                    out[k] = (wf.observed(b.get(f.ref(k))), f.ref(k).id)
            wf.close(b)
        else:
            b = Butler.from_config(self.root)
            for k in self.keys(f):
                refs = b.query_datasets(k[0], collections=f.run, explain=False) if b.collections.query(f.run) else []
                expect(len(refs) <= 1, "%d datasets for %s in one run", len(refs), k)
                for ref in refs:
                    if self.kind == "graph":
                        expect_eq(ref.id, f.ref(k).id, f"ID of {k}")
                    if b.stored(ref):
                        out[k] = (wf.observed(b.get(ref)), ref.id)
            wf.close(b)
        return out


def wf_values(f, x):
    (key,) = [k for k in f.overall if k[0] == x.dataset_type_name and list(synth.data_id(f.s.datasets[k]["dk"], k[1]).full_values) == list(x.data_coordinate)]
    return key[1]


def merge_packages(old, new):
    """(error, result)."""
    if old is None:
        return False, dict(new)
    if any(old[k] != new[k] for k in set(old) & set(new)):
        return True, old
    return False, {**old, **new}


def check_prepare(case):
    wf.fake_packages()
    saved = dict(wf.PACKAGES)
    counts = {}
    try:
        with scratch_dir() as d:
            w = World(d, case)
            for n, op in enumerate(case["ops"]):
                step(w, n, op, counts)
            for f in w.flows.values():
                f.close()
    finally:
        wf.PACKAGES.clear()
        wf.PACKAGES.update(saved)
    return max(counts.values(), default=0) >= 2


def step(w, n, op, counts):
    case = w.case
    r = op["run"]
    what = op["op"]
    value = op["value"] if what != "init" else 0
    if what == "init" and any(c.get("config") == 1 for c, _ in w.state[r].values() if isinstance(c, dict)):
        value = 1
    f = w.flow(r, value)
    wf.PACKAGES.clear()
    wf.PACKAGES.update(PKGS[op["pkg"]])
    keys = w.keys(f)
    old = w.state[r]
    expect_eq(w.observe(r), old, f"stored init-outputs before step {n}")
    if what == "lose":
        if not old or case["qbb"]:
            return
        k = sorted(old)[op["k"] % len(old)]
        b = Butler.from_config(w.root, writeable=True)
        (ref,) = b.query_datasets(k[0], collections=f.run)
        b.pruneDatasets([ref], disassociate=False, unstore=True, purge=False)
        wf.close(b)
        del old[k]
        w.lost = getattr(w, "lost", set()) | {(r, k)}
        return
    if what == "sep" and (case["qbb"] or w.kind == "pipeline"):
        what = "all"
    lost = {k for rr, k in getattr(w, "lost", set()) if rr == r and k not in old}
    counts[r] = counts.get(r, 0) + 1
    configs = {k for k, (label, conn) in keys.items() if conn == "_config"}
    packages = {k for k, (label, conn) in keys.items() if conn == "packages"}
    inits = set(keys) - configs - packages
    existing = op["existing"] if w.kind == "graph" else True
    stages = {"all": ("configs", "packages", "init"), "crash": ("configs", "packages", "init"), "configs": ("configs",), "packages": ("packages",),
              "init": ("init",), "sep": ("init", "configs", "packages")}[what]
    if what == "sep":
        stages = (("init", "configs") if op["flags"][0] else ()) + (("packages",) if op["flags"][1] else ())
    new, errors = dict(old), []
    (pk,) = packages
    for s in stages:
        ok_existing = existing if what != "sep" else (True if s != "init" else existing)
        if s == "configs":
            if not ok_existing and configs & old.keys():
                errors.append("exists")
            elif any(old[k][0] != w.expected(f, *keys[k], k) for k in configs & old.keys()):
                errors.append("config")
            for k in configs - old.keys():
                new[k] = (w.expected(f, *keys[k], k), None)
        elif s == "packages":
            if not ok_existing and pk in old:
                errors.append("exists")
            else:
                bad, merged = merge_packages(old[pk][0]["packages"] if pk in old else None, PKGS[op["pkg"]])
                if bad:
                    errors.append("packages")
                else:
                    new[pk] = ({"packages": merged}, None)
        else:
            if not ok_existing and inits & old.keys():
                errors.append("exists")
            for k in inits - old.keys():
                new[k] = (w.expected(f, *keys[k], k), None)
    # a different configuration with the configs of the run lost or not yet written leaves the content of init-outputs open
    if case["qbb"]:
        b = f.qg.make_init_qbb(w.root)
    else:
        kw = {}
        if w.kind == "pipeline":
            # the output run may be used together with inputs and with earlier runs
            kw["collections"] = ["in1", f.run]
            if op["flags"][0] and w.state[1 - r]:
                kw["collections"].insert(0 if op["flags"][1] else 2, w.run_name(1 - r))
        b = Butler.from_config(w.root, run=f.run, writeable=True, **kw)
    crash_at = op["k"]
    calls = [0]
    if what == "crash":
        real = b.put

        def put(*args, **kw):
            i = calls[0]
            calls[0] += 1
            if i == crash_at and op["at"] == "before":
                raise Crash("write failed")
            result = real(*args, **kw)
            if i == crash_at:
                raise Crash("interrupted after write")
            return result

        b.put = put
    graph = f.qg
    # tasks without quanta are not part of legacy graphs
    if w.kind == "graph" and op["via"] == "legacy" and not case["qbb"] and {q[0] for q in f.s.quanta} == set(f.graph.tasks):
        graph = f.qg.to_old_quantum_graph()
    err = None
    try:
        if w.kind == "pipeline":
            g = f.graph
            if len(stages) == 3:
                g.init_output_run(b)
            else:
                {"configs": g.write_configs, "packages": g.write_packages, "init": g.write_init_outputs}[stages[0]](b)
        elif what == "sep":
            from lsst.pipe.base.separable_pipeline_executor import SeparablePipelineExecutor

            ex = SeparablePipelineExecutor(b, skip_existing_in=[f.run] if existing else None)
            ex.pre_execute_qgraph(graph, register_dataset_types=op["flags"][0], save_init_outputs=op["flags"][0], save_versions=op["flags"][1])
        elif len(stages) == 3:
            graph.init_output_run(b, existing=existing) if not existing else graph.init_output_run(b)
        elif stages[0] == "init":
            graph.write_init_outputs(b, skip_existing=existing)
        else:
            {"configs": graph.write_configs, "packages": graph.write_packages}[stages[0]](b, compare_existing=existing)
    except Exception as e:  # noqa: BLE001
        err = e
    finally:
        wf.close(b)
    got = w.observe(r)
    label = f"step {n} ({what} of run {r} with value {value} and packages {PKGS[op['pkg']]})"
    crashed = isinstance(err, Crash)
    if crashed:
        pass
    elif errors:
        expect(isinstance(err, ConflictingDefinitionError), "%s should be rejected because of %s, but: %r", label, errors, err)
    elif lost and w.kind == "pipeline" and isinstance(err, FileNotFoundError):
        errors.append("lost")
    elif err is not None:
        raise err
    if not errors and not crashed:
        expect_eq({k: v[0] for k, v in got.items()}, {k: v[0] for k, v in new.items()}, f"init-outputs after {label}")
    for k, (content, i) in got.items():
        if k in old:
            expect(content == old[k][0] or (k == pk and not errors and content == new[k][0]), "%s: content of %s changed from %s to %s", label, k, old[k][0], content)
            expect_eq(i, old[k][1], f"ID of {k} after {label}")
        else:
            expect(k in new and content == new[k][0], "%s: unexpected content of %s: %s", label, k, content)
    for k in old:
        if crashed and k == pk:
            continue
        expect(k in got, "%s: %s is no longer stored", label, k)
    for k in got:
        getattr(w, "lost", set()).discard((r, k))
    if crashed:
        # what was written is a prefix: nothing else than expected content, checked above
        pass
    w.state[r] = got
    # other runs are not affected
    o = 1 - r
    if (o, 0) in w.flows:
        expect_eq(w.observe(o), w.state[o], f"init-outputs of the other run after {label}")


# ------------------------------------------------------------------- registration


@st.composite
def register_cases(draw):
    spec = draw(small_specs())
    pre = {}
    names = sorted({c["name"] for t in spec["tasks"] for c in t["conns"]} | {f"{t['label']}_{s}" for t in spec["tasks"] for s in ("config", "metadata", "log")}
                   | {"packages"})
    names = [n for n in names if not (n.endswith("_metadata") and False)]
    for name in names:
        pre[name] = draw(st.sampled_from(["no", "no", "same", "same", "same", "dims", "sc"] if draw(st.integers(0, 3)) == 0 else ["no", "same"]))
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq"):
                c["minimum"] = draw(st.sampled_from([0, 1]))
    ops = draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["register", "register", "check"]), "packages": st.booleans(), "inputs": st.booleans(),
                                               "configs": st.booleans(), "logs": st.booleans()}), min_size=1, max_size=4))
    return {"spec": spec, "pre": pre, "ops": ops}


def check_register(case):
    wf.fake_packages()
    with scratch_dir() as d:
        import shutil

        root = os.path.join(d, "repo")
        shutil.copytree(wf.template(), root)
        b = Butler.from_config(root, writeable=True)
        s = synth.Synth(case["spec"])
        graph = s.graph
        types = {n.name: n.dataset_type for n in graph.dataset_types.values()}
        types["packages"] = graph.packages_dataset_type
        registered = {}
        conflicts = 0
        for name, how in sorted(case["pre"].items()):
            if how == "no":
                continue
            dt = types[name]
            if how == "dims":
                dt = DatasetType(name, b.dimensions.conform(["skymap"]), dt.storageClass)
            elif how == "sc":
                dt = DatasetType(name, dt.dimensions, "StructuredDataList" if dt.storageClass_name != "StructuredDataList" else "StructuredDataDict")
            conflicts += dt != types[name]
            b.registry.registerDatasetType(dt)
            registered[name] = dt
        produced = {n for n in types if n == "packages"} | {k[0] for k, v in s.datasets.items() if v["producer"] is not None}
        outs = {c["name"] for t in case["spec"]["tasks"] for c in t["conns"] if c["kind"] in ("out", "init_out")}
        outs |= {f"{t['label']}_{x}" for t in case["spec"]["tasks"] for x in ("config", "metadata", "log")}
        configs = {f"{t['label']}_config" for t in case["spec"]["tasks"]}
        logs = {f"{t['label']}_log" for t in case["spec"]["tasks"]}
        optional = set()
        for name in set(types) - outs - {"packages"}:
            uses = [c for t in case["spec"]["tasks"] for c in t["conns"] if c["name"] == name]
            if all(c["kind"] in ("in", "prereq") and c.get("minimum", 1) == 0 for c in uses):
                optional.add(name)

        def now():
            return {dt.name: dt for dt in b.registry.queryDatasetTypes()}

        for op in case["ops"]:
            if op["op"] == "register":
                want = set(outs) | ((set(types) - outs - {"packages"}) if op["inputs"] else set())
                if op["packages"]:
                    want.add("packages")
                if not op["configs"]:
                    want -= configs
                if not op["logs"]:
                    want -= logs
                bad = {n for n in want if n in registered and registered[n] != types[n]}
                kw = dict(include_packages=op["packages"], include_inputs=op["inputs"], include_configs=op["configs"], include_logs=op["logs"])
                if bad:
                    with must_raise(ConflictingDefinitionError, msg=f"registering {sorted(bad)} with another definition"):
                        graph.register_dataset_types(b, **kw)
                    got = now()
                    for n in registered:
                        expect_eq(got.get(n), registered[n], f"definition of {n} after a rejected registration")
                    for n in set(got) - set(registered):
                        expect(n in want and got[n] == types[n], "unexpected dataset type %s", n)
                    registered = got
                else:
                    graph.register_dataset_types(b, **kw)
                    registered.update({n: types[n] for n in want})
                    expect_eq(now(), registered, "registered dataset types")
            else:
                need = (set(types) if op["packages"] else set(types) - {"packages"})
                bad = {n for n in need if n in registered and registered[n] != types[n]}
                missing = {n for n in need if n not in registered} - optional
                if bad or missing:
                    kinds = ((ConflictingDefinitionError,) if bad else ()) + ((MissingDatasetTypeError,) if missing else ())
                    with must_raise(*kinds, msg=f"checking registrations with conflicts {sorted(bad)} and missing types {sorted(missing)}"):
                        graph.check_dataset_type_registrations(b, include_packages=op["packages"])
                else:
                    graph.check_dataset_type_registrations(b, include_packages=op["packages"])
                expect_eq(now(), registered, "registered dataset types after a check")
        wf.close(b)
    return bool(registered) and (conflicts > 0 or any(v == "no" for v in case["pre"].values()))


FACETS = [Facet("prepare", prepare_cases, check_prepare, quick=160),
          Facet("register", register_cases, check_register, quick=160)]
