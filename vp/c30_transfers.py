"""C30: transferring, zipping and retrieving by graph."""
from __future__ import annotations

import fnmatch
import glob
import json
import os
import shutil
import uuid

import hypothesis.strategies as st
from lsst.daf.butler import Butler, CollectionType, FileDataset
from lsst.pipe.base import QuantumGraph
from lsst.pipe.base.script.retrieve_artifacts_for_quanta import retrieve_artifacts_for_quanta
from lsst.pipe.base.script.transfer_from_graph import transfer_from_graph
from lsst.pipe.base.script.zip_from_graph import zip_from_graph

import qgs
import synth
import wf
from core import Facet, expect, expect_eq, must_raise, scratch_dir

PROPERTY = "C30"
RULE = ("refs: generated graphs (1..4 tasks, outputs with another storage class in the repository than in the task) and all flags of "
        "QuantumGraph.get_refs; counted non-trivial if more than two datasets are selected and the graph has intermediates. "
        "transfer: histories of writing outputs to the datastore only, transfers with dataset-type globs, dry runs and chain updates; "
        "non-trivial if at least two datasets were transferred. retrieve, zip: subsets of quanta, inputs (partly ingested in place), "
        "written outputs and globs; non-trivial if at least two existing datasets were asked for.")


@st.composite
def specs(draw, max_tasks=3, max_det=3):
    spec = draw(synth.graph_specs(max_tasks=max_tasks, max_det=max_det, empty_tasks=False))
    # outputs with another storage class in the repository than in the task
    registry = {}
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] == "out" and draw(st.integers(0, 4)) == 0:
                c["sc"] = "TaskMetadata"
                registry[c["name"]] = [c["dk"], qgs.SC]
    spec["registry"] = registry
    # connections that the tasks do not load are enough here
    spec["output"] = draw(st.sampled_from([None, "u/chain", "u/chain"]))
    return spec


def live(s):
    return {k[0] for k in s.quanta}


def model_sets(s, quanta=None, labels=None):
    """The dataset keys of the graph by role."""
    quanta = set(s.quanta) if quanta is None else quanta
    labels = {k[0] for k in quanta} if labels is None else labels
    ins = {d for k in quanta for ds in s.quanta[k]["in"].values() for d in ds}
    outs = {d for k in quanta for ds in s.quanta[k]["out"].values() for d in ds}
    iin = {d for lab in labels for d in s.init[lab]["in"].values()}
    iout = {d for lab in labels | {""} for d in s.init[lab]["out"].values()}
    return ins, outs, iin, iout


# ------------------------------------------------------------------- selection


@st.composite
def refs_cases(draw):
    return {"spec": draw(specs(max_tasks=4)), "flags": draw(st.lists(st.booleans(), min_size=5, max_size=5)),
            "inter": draw(st.sampled_from([None, None, True, False]))}


def check_refs(case):
    s = synth.Synth(case["spec"])
    if not s.quanta:
        return False
    g = s.components.assemble().to_old_quantum_graph()
    iin_f, in_f, iout_f, out_f, conform = case["flags"]
    ins, outs, iin, iout = model_sets(s)
    inter = (ins | iin) & (outs | iout)
    expected = set()
    for flag, part in [(in_f, ins), (out_f, outs), (iin_f, iin), (iout_f, iout)]:
        if flag:
            expected |= part
    if case["inter"] is True:
        expected |= inter
    elif case["inter"] is False:
        expected -= inter
    refs, records = g.get_refs(include_init_inputs=iin_f, include_inputs=in_f, include_intermediates=case["inter"], include_init_outputs=iout_f,
                               include_outputs=out_f, conform_outputs=conform)
    by_id = {v["id"]: k for k, v in s.datasets.items()}
    for r in refs:
        expect(r.id in by_id, "%s is not in the graph", r)
        k = by_id[r.id]
        expect_eq(r.datasetType.name, k[0], "dataset type")
        expect_eq(r.run, s.datasets[k]["run"], "run")
        expect_eq(r.dataId, synth.data_id(s.datasets[k]["dk"], k[1]), "data ID")
    expect_eq(sorted(map(str, {by_id[r.id] for r in refs})), sorted(map(str, expected)), f"datasets selected with {case['flags']} {case['inter']}")
    if conform and not in_f and not iin_f and case["inter"] is None:
        for r in refs:
            node = s.graph.dataset_types.get(r.datasetType.name)
            if node is not None:
                expect_eq(r.datasetType, node.dataset_type, "conformed dataset type")
        expect_eq(len(refs), len(expected), "number of refs")
    return len(expected) > 2 and bool(inter)


# ------------------------------------------------------------------- transfers


PATTERNS = ["*_metadata", "t0_*", "out*", "out0_0", "*0_0", "t?_log", "init*", "packages", "*", "ut0*", "0_*", "nothing", "*_config", "t1_log", "raw_*", "t[0-9]_metadata"]


def filters():
    return st.one_of(st.just([]), st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=2))


def matches(name, patterns):
    return not patterns or any(fnmatch.fnmatchcase(name, p) for p in patterns)


@st.composite
def transfer_cases(draw):
    ops = draw(st.lists(st.one_of(
        st.fixed_dictionaries({"op": st.just("write"), "mask": st.integers(0, 2**24 - 1), "all": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("transfer"), "filter": filters(), "dry": st.sampled_from([False, False, False, True]), "chain": st.booleans(),
                               "register": st.sampled_from([True, True, True, False]), "dims": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("unlink"), "n": st.integers(0, 3)}),
    ), min_size=2, max_size=6))
    return {"spec": draw(specs()), "ops": ops, "chained": draw(st.booleans())}


class Files:
    """A repository for quantum-backed execution with some outputs of a graph, and a saved legacy graph."""

    def __init__(self, d, spec, direct=0):
        self.d = d
        self.f = f = wf.Flow(d, spec, mode="qbb", task_class="vptasks.SpecTask", inputs=False)
        b = Butler.from_config(f.root, writeable=True)
        for name in sorted({k[0] for k in f.overall}):
            b.registry.registerDatasetType(f.types[name])
        for i, k in enumerate(f.overall):
            if direct >> i & 1 and f.types[k[0]].storageClass_name == qgs.SC:
                path = os.path.join(d, f"direct-{i}.json")
                with open(path, "w") as out:
                    json.dump(wf.input_content(k), out)
                b.ingest(FileDataset(path, [f.ref(k)]), transfer="direct")
            else:
                b.put(self.object(k), f.ref(k))
        f.attach(b)
        wf.close(b)
        f.qg = f.s.components.assemble()
        self.file = os.path.join(d, "graph.qgraph")
        f.qg.to_old_quantum_graph().saveUri(self.file)
        ins, outs, iin, iout = model_sets(f.s)
        self.outputs = sorted(outs | iout)
        self.written = {}
        self.serial = 0

    def object(self, k):
        if self.f.s.datasets[k]["producer"] is None:
            return wf.input_content(k)
        return self.f.output_object(k)

    def write(self, mask, every):
        b = self.f.store()
        for i, k in enumerate(self.outputs):
            if k not in self.written and (every or mask >> (i % 24) & 1):
                obj = self.f.output_object(k, self.serial)
                b.put(obj, self.f.ref(k))
                self.written[k] = wf.observed(obj)
        wf.close(b)

    def central(self):
        """What the repository knows about outputs: {key: content}."""
        f = self.f
        b = Butler.from_config(f.root)
        out = {}
        by_id = {v["id"]: k for k, v in f.s.datasets.items()}
        if f.run in b.collections.query("*"):
            for name in sorted({k[0] for k in self.outputs}):
                if b.registry.getDatasetType(name) if name in {t.name for t in b.registry.queryDatasetTypes()} else None:
                    for ref in b.query_datasets(name, collections=f.run, explain=False, limit=None):
                        expect(ref.id in by_id, "%s is not in the graph", ref)
                        k = by_id[ref.id]
                        expect_eq(ref.dataId, f.ref(k).dataId, "data ID of a transferred dataset")
                        out[k] = wf.observed(b.get(ref)) if b.stored(ref) else None
        chains = {c: list(b.collections.get_info(c).children) for c in b.collections.query("*", CollectionType.CHAINED)}
        types = {t.name for t in b.registry.queryDatasetTypes()}
        wf.close(b)
        return out, chains, types


def check_transfer(case):
    wf.fake_packages()
    spec = case["spec"]
    n = 0
    with scratch_dir() as d:
        w = Files(d, spec)
        f = w.f
        if case["chained"] and spec["inputs"]:
            b = Butler.from_config(f.root, writeable=True)
            b.collections.register("ch", CollectionType.CHAINED)
            b.collections.extend_chain("ch", spec["inputs"])
            wf.close(b)
            spec = dict(spec, inputs=["ch"])
            f.s.components.header.inputs = ["ch"]
            f.s.components.assemble().to_old_quantum_graph().saveUri(w.file)
        model = {}
        run_known = False
        _, chains, types = w.central()
        for i, op in enumerate(case["ops"]):
            label = f"step {i} ({op})"
            if op["op"] == "write":
                w.write(op["mask"], op["all"])
                continue
            if op["op"] == "unlink":
                # the run loses its place in the chain, or the chain goes away
                b = Butler.from_config(f.root, writeable=True)
                if "u/chain" in chains:
                    if op["n"] % 2 and f.run in chains["u/chain"]:
                        b.collections.remove_from_chain("u/chain", f.run)
                        chains["u/chain"].remove(f.run)
                    else:
                        b.collections.extend_chain("u/chain", "in2") if "in2" not in chains["u/chain"] else None
                        if "in2" not in chains["u/chain"]:
                            chains["u/chain"].append("in2")
                wf.close(b)
                continue
            wanted = {k: v for k, v in w.written.items() if k not in model and matches(k[0], op["filter"])}
            missing_types = {k[0] for k in wanted} - types
            kw = dict(register_dataset_types=op["register"], transfer_dimensions=op["dims"], update_output_chain=op["chain"], dry_run=op["dry"],
                      dataset_type=tuple(op["filter"]))
            if missing_types and not op["register"]:
                # nothing has to be transferred as the repository does not know the dataset types
                try:
                    transfer_from_graph(w.file, f.root, **kw)
                except Exception:  # noqa: BLE001
                    pass
                got, chains, types = w.central()
                for k, v in got.items():
                    expect(k in model or k in wanted, "%s: %s was not asked for", label, k)
                    expect_eq(v, w.written[k], f"content of {k}")
                model = got
                run_known = f.run in all_collections(f.root)
                continue
            count = transfer_from_graph(w.file, f.root, **kw)
            got, new_chains, types = w.central()
            if not op["dry"]:
                expect_eq(count, len(wanted), f"number of datasets transferred in {label}")
                model.update(wanted)
                n += len(wanted)
                run_known = run_known or bool(wanted)
                if op["chain"] and spec["output"] and run_known:
                    if spec["output"] not in chains:
                        inputs = spec["inputs"]
                        if case["chained"] and inputs:
                            inputs = chains["ch"]
                        chains[spec["output"]] = list(inputs)
                    c = chains[spec["output"]]
                    chains[spec["output"]] = [f.run] + [x for x in c if x != f.run]
            expect_eq(got, model, f"datasets in the repository after {label}")
            expect_eq(new_chains, chains, f"chains after {label}")
        f.close()
    return n >= 2


def all_collections(root):
    b = Butler.from_config(root)
    out = set(b.collections.query("*"))
    wf.close(b)
    return out


# ------------------------------------------------------------------- zip files and artifacts


@st.composite
def retrieve_cases(draw):
    return {"spec": draw(specs()), "mask": draw(st.integers(0, 2**24 - 1)), "all": draw(st.booleans()), "direct": draw(st.integers(0, 2**6)),
            "filter": draw(filters()), "nodes": draw(st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=4))),
            "flags": draw(st.lists(st.booleans(), min_size=2, max_size=2)), "preserve": draw(st.sampled_from([True, True, False])),
            "transfer": draw(st.sampled_from(["copy", "auto", "symlink", "hardlink"])), "again": draw(st.sampled_from([None, True, False]))}


def check_retrieve(case):
    wf.fake_packages()
    with scratch_dir() as d:
        w = Files(d, case["spec"], case["direct"])
        f = w.f
        if not f.s.quanta:
            return False
        w.write(case["mask"], case["all"])
        inputs, outputs = case["flags"]
        quanta, nodes = None, []
        if case["nodes"] is not None:
            every = sorted(f.s.quanta)
            quanta = {every[i % len(every)] for i in case["nodes"]}
            nodes = [str(f.s.quanta[k]["id"]) for k in sorted(quanta)]
        ins, outs, iin, iout = model_sets(f.s, quanta)
        stored = {**{k: wf.input_content(k) for k in f.overall}, **w.written}
        required = {k for k in ((ins | iin) if inputs else set()) | ((outs | iout) if outputs else set()) if k in stored}
        ins, outs, iin, iout = model_sets(f.s, quanta, live(f.s))
        optional = {k for k in (iin if inputs else set()) | (iout if outputs else set()) if k in stored}
        dest = os.path.join(d, "dest/")
        os.mkdir(dest)
        args = dict(graph=w.file, repo=f.root, dest=dest, transfer=case["transfer"], preserve_path=case["preserve"], qgraph_node_id=nodes,
                    include_inputs=inputs, include_outputs=outputs)
        paths = retrieve_artifacts_for_quanta(clobber=False, **args)
        files = [p.ospath for p in paths]
        uris = source_files(f, stored)
        if case["preserve"] or len({os.path.basename(uris[k]) for k in required | optional}) == len(required | optional):
            check_files(files, {uris[k]: k for k in required}, {uris[k]: k for k in required | optional}, "retrieved files")
        else:
            expect(len(files) <= len(required | optional), "%d files for %d datasets", len(files), len(required | optional))
        on_disk = sorted(p for p in glob.glob(dest + "**", recursive=True) if os.path.isfile(p) and not os.path.basename(p).endswith("_index.json"))
        expect_eq(on_disk, sorted(files), "files at the destination")
        if case["again"] is not None and files:
            if case["again"]:
                again = retrieve_artifacts_for_quanta(clobber=True, **args)
                expect_eq(sorted(p.ospath for p in again), sorted(files), "files of a repeated retrieval")
            elif case["transfer"] in ("copy",):
                with must_raise(FileExistsError, msg="retrieving onto existing files"):
                    retrieve_artifacts_for_quanta(clobber=False, **args)
        f.close()
    return len(required) >= 2


def source_files(f, stored):
    """The artifacts of datasets in the repository."""
    b = f.store()
    out = {}
    for k in stored:
        out[k] = b._datastore.getURI(f.ref(k)).ospath
    wf.close(b)
    return out


def check_files(files, required, allowed, what):
    def body(p):
        with open(p, "rb") as s:
            return (os.path.basename(p), s.read())

    got = sorted(body(p) for p in files)
    need = sorted(body(p) for p in required)
    may = sorted(body(p) for p in allowed)
    for x in need:
        expect(got.count(x) >= 1, "%s: %s is missing", what, x)
    for x in got:
        expect(got.count(x) <= may.count(x), "%s: %s was not asked for", what, x)


@st.composite
def zip_cases(draw):
    return {"spec": draw(specs()), "mask": draw(st.integers(0, 2**24 - 1)), "all": draw(st.booleans()), "filter": draw(filters())}


def check_zip(case):
    wf.fake_packages()
    with scratch_dir() as d:
        w = Files(d, case["spec"])
        f = w.f
        w.write(case["mask"], case["all"])
        wanted = {k: v for k, v in w.written.items() if matches(k[0], case["filter"])}
        dest = os.path.join(d, "zips/")
        os.mkdir(dest)
        try:
            path = zip_from_graph(w.file, f.root, dest, tuple(case["filter"]))
        except ValueError:
            expect(not wanted, "no file for %s", sorted(wanted))
            return False
        # ingest into another repository
        root = os.path.join(d, "other")
        shutil.copytree(wf.template(), root)
        b = Butler.from_config(root, writeable=True)
        for name in sorted({k[0] for k in w.outputs}):
            b.registry.registerDatasetType(f.types[name])
        if wanted:
            b.ingest_zip(path, transfer="copy")
            by_id = {v["id"]: k for k, v in f.s.datasets.items()}
            got = {}
            for name in sorted({k[0] for k in w.outputs}):
                for ref in b.query_datasets(name, collections=f.run, explain=False, limit=None):
                    k = by_id[ref.id]
                    expect_eq(ref.dataId, f.ref(k).dataId, "data ID")
                    got[k] = wf.observed(b.get(ref))
            expect_eq(got, wanted, f"datasets in the zip file for {case['filter']}")
        else:
            import zipfile

            with zipfile.ZipFile(path.ospath) as z:
                expect([n for n in z.namelist() if not n.endswith("_index.json")] == [], "files in %s: %s", path, z.namelist())
        wf.close(b)
        f.close()
    return len(wanted) >= 2


FACETS = [
    Facet("refs", refs_cases, check_refs, quick=800, thorough=60000),
    Facet("transfer", transfer_cases, check_transfer, quick=200, thorough=6000),
    Facet("retrieve", retrieve_cases, check_retrieve, quick=200, thorough=6000),
    Facet("zip", zip_cases, check_zip, quick=120, thorough=4000),
]
