"""Predicted quantum graphs synthesised directly in memory (no repository), from generated descriptions."""
from __future__ import annotations

import functools
import uuid

import hypothesis.strategies as st

import qgs
from core import expect_eq

DIMS = {"e": (), "i": ("instrument",), "d": ("instrument", "detector"), "f": ("instrument", "physical_filter"),
        "g": ("instrument", "detector", "physical_filter")}
SUP = {"e": "eidfg", "i": "idfg", "d": "dg", "f": "fg", "g": "g"}
NS = uuid.UUID(int=0xC0FFEE)
BANDS = ["r", "g", "r2"]


@st.composite
def graph_specs(draw, max_tasks=4, max_det=4, init=True, empty_tasks=True, min_tasks=1):
    """A pipeline plus which quanta exist and which datasets each reads."""
    big = draw(st.integers(0, 9)) == 0
    size = {"ni": draw(st.integers(1, 2)), "nd": draw(st.integers(1, max_det * 4 if big else max_det)), "nf": draw(st.integers(1, 3))}
    tasks, made, init_made = [], [], []
    for t in range(draw(st.integers(min_tasks, max_tasks))):
        label = f"t{t}"
        dk = draw(st.sampled_from("eidfg" if t else "idfg"))
        conns = []
        pool = sorted(set(made))
        names = set()
        for j in range(draw(st.integers(0 if t else 1, 3))):
            if pool and draw(st.integers(0, 3)):
                name, idk = draw(st.sampled_from(pool))
                kind = "in"
            else:
                idk = draw(st.sampled_from("idfg"))
                kind = draw(st.sampled_from(["in", "in", "prereq"]))
                name = f"{'raw' if kind == 'in' else 'pre'}_{idk}"
            if name in names:
                continue
            names.add(name)
            conns.append({"conn": f"in{j}", "kind": kind, "name": name, "sc": qgs.SC, "dims": list(DIMS[idk]), "dk": idk, "multiple": True,
                          "minimum": 0, "mask": draw(st.integers(0, 2**16 - 1)) | (1 if draw(st.booleans()) else 0),
                          "defer_load": draw(st.booleans())})
        for j in range(draw(st.integers(1, 2))):
            odk = draw(st.sampled_from(dk + dk + SUP[dk]))
            name = f"out{t}_{j}"
            conns.append({"conn": f"out{j}", "kind": "out", "name": name, "sc": qgs.SC, "dims": list(DIMS[odk]), "dk": odk, "multiple": True,
                          "mask": 2**16 - 1 if draw(st.integers(0, 2)) else draw(st.integers(0, 2**16 - 1))})
            made.append((name, odk))
        made.append((f"{label}_metadata", dk))
        if init:
            if draw(st.integers(0, 2)) == 0:
                conns.append({"conn": "io", "kind": "init_out", "name": f"init{t}", "sc": qgs.SC})
            if draw(st.integers(0, 2)) == 0:
                conns.append({"conn": "ii", "kind": "init_in", "sc": qgs.SC,
                              "name": draw(st.sampled_from(init_made)) if init_made and draw(st.booleans()) else "rawinit"})
            if any(c["kind"] == "init_out" for c in conns):
                init_made.append(f"init{t}")
        for c in conns:
            if c["name"].endswith("_metadata"):
                c["sc"] = "TaskMetadata"
        mask = draw(st.sampled_from(["all", "all", "all", "mask", "none"] if empty_tasks and t else ["all", "all", "mask"]))
        tasks.append({"label": label, "dk": dk, "dims": list(DIMS[dk]), "conns": conns,
                      "quanta": {"all": 2**16 - 1, "none": 0}.get(mask) if mask != "mask" else draw(st.integers(1, 2**16 - 1))})
    return {"size": size, "tasks": tasks, "out_run": "u/out", "inputs": draw(st.sampled_from([["in1"], ["in1", "in2"], []]))}


@functools.cache
def universe():
    from lsst.daf.butler import DimensionUniverse

    return DimensionUniverse()


@functools.cache
def data_id(dk, values):
    """Expanded data ID; ``values`` are the required values."""
    from lsst.daf.butler import DataCoordinate

    u = universe()
    d = dict(zip(DIMS[dk], values))
    recs = {}
    if "instrument" in d:
        recs["instrument"] = u["instrument"].RecordClass(name=d["instrument"], visit_max=100, exposure_max=100, detector_max=99,
                                                         class_name="x.Y")
    if "detector" in d:
        recs["detector"] = u["detector"].RecordClass(instrument=d["instrument"], id=d["detector"], full_name=f"D{d['detector']}",
                                                     purpose="SCIENCE")
    if "physical_filter" in d:
        band = BANDS[int(d["physical_filter"][1:]) % 3]
        recs["physical_filter"] = u["physical_filter"].RecordClass(instrument=d["instrument"], name=d["physical_filter"], band=band)
        recs["band"] = u["band"].RecordClass(name=band)
        d["band"] = band
    return DataCoordinate.standardize(d, universe=u).expanded(recs)


def values(dk, size):
    """All required-value tuples for a dimension key."""
    out = [()]
    for dim in DIMS[dk]:
        opts = {"instrument": [f"I{k}" for k in range(size["ni"])], "detector": list(range(size["nd"])),
                "physical_filter": [f"F{k}" for k in range(size["nf"])]}[dim]
        out = [v + (o,) for v in out for o in opts]
    return out


def related(dk, v, dk2, size):
    """Required values for ``dk2`` that agree with ``v`` on common dimensions."""
    known = dict(zip(DIMS[dk], v))
    return [w for w in values(dk2, size) if all(known.get(dim, x) == x for dim, x in zip(DIMS[dk2], w))]


def bit(mask, n):
    return (mask >> (n % 16)) & 1


class Synth:
    """Builds components and keeps an independent description of the graph."""

    def __init__(self, spec, *, file_records=False, salt="", task_class="vptasks.SpecTask", value=None):
        from lsst.daf.butler import DimensionDataAttacher, DimensionDataExtractor
        from lsst.pipe.base.quantum_graph import PredictedQuantumGraphComponents
        from lsst.pipe.base.quantum_graph._predicted import PredictedDatasetModel, PredictedQuantumDatasetsModel

        self.spec = spec
        self.salt = salt
        size, run = spec["size"], spec["out_run"]
        self.run = run
        self.graph = qgs.make_graph(spec, task_class=task_class, value=value)
        from lsst.daf.butler import DatasetType

        known = {n: DatasetType(n, universe().conform(DIMS[dk]), sc) for n, (dk, sc) in spec.get("registry", {}).items()}
        self.graph.resolve(dimensions=universe(), dataset_types=known)
        comps = PredictedQuantumGraphComponents(pipeline_graph=self.graph)
        comps.header.inputs = list(spec["inputs"])
        comps.header.output_run = run
        comps.header.output = spec.get("output")
        comps.header.metadata = dict(spec.get("metadata", {}))
        self.datasets = {}
        """(name, values) -> dict(id, run, dk, producer quantum key or None)"""
        self.quanta = {}
        """(label, values) -> dict(id, in={conn: [keys]}, out={conn: [keys]})"""
        self.init = {}
        used_ids = set()

        def dataset(name, dk, v, producer=None):
            k = (name, v)
            if k not in self.datasets:
                self.datasets[k] = {"id": self.uid("d", name, v), "run": run if producer else "in1", "dk": dk, "producer": producer}
            return k

        def model(k):
            ds = self.datasets[k]
            used_ids.add((ds["dk"], k[1]))
            return PredictedDatasetModel(dataset_id=ds["id"], dataset_type_name=k[0], run=ds["run"],
                                         data_coordinate=list(data_id(ds["dk"], k[1]).full_values))

        extractor = DimensionDataExtractor.from_dimension_group(self.graph.get_all_dimensions())
        # init quanta: packages first, then per task
        init_quanta = [PredictedQuantumDatasetsModel(quantum_id=self.uid("iq", ""), task_label="",
                                                     outputs={"packages": [model(dataset("packages", "e", (), ("", ())))]})]
        self.init[""] = {"in": {}, "out": {"packages": ("packages", ())}}
        dk_of = {c["name"]: c["dk"] for t in spec["tasks"] for c in t["conns"] if "dk" in c}
        for t in spec["tasks"]:
            dk_of[t["label"] + "_metadata"] = dk_of[t["label"] + "_log"] = t["dk"]
        types_made = {c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] == "out"} | {
            t["label"] + "_metadata" for t in spec["tasks"]}
        live_tasks = set()
        for t in spec["tasks"]:
            label = t["label"]
            vs = [v for n, v in enumerate(values(t["dk"], size)) if bit(t["quanta"], n)]
            for v in vs:
                ins, outs = {}, {}
                for c in t["conns"]:
                    if c["kind"] in ("in", "prereq"):
                        keys = []
                        for n, w in enumerate(related(t["dk"], v, c["dk"], size)):
                            if not bit(c["mask"], n):
                                continue
                            if c["name"] in types_made:
                                if (c["name"], w) not in self.datasets:
                                    continue
                                keys.append((c["name"], w))
                            else:
                                keys.append(dataset(c["name"], c["dk"], w))
                        ins[c["conn"]] = keys
                    elif c["kind"] == "out":
                        outs[c["conn"]] = [dataset(c["name"], c["dk"], w, (label, v)) for n, w in enumerate(related(t["dk"], v, c["dk"], size))
                                           if bit(c["mask"], n)]
                outs["_metadata"] = [dataset(label + "_metadata", t["dk"], v, (label, v))]
                outs["_log"] = [dataset(label + "_log", t["dk"], v, (label, v))]
                self.quanta[label, v] = {"id": self.uid("q", label, v), "in": ins, "out": outs, "label": label, "values": v, "dk": t["dk"]}
            if vs:
                live_tasks.add(label)
            iin, iout = {}, {"_config": dataset(label + "_config", "e", (), (label, None))}
            for c in t["conns"]:
                if c["kind"] == "init_in":
                    iin[c["conn"]] = dataset(c["name"], "e", ())
                elif c["kind"] == "init_out":
                    iout[c["conn"]] = dataset(c["name"], "e", (), (label, None))
            self.init[label] = {"in": iin, "out": iout}
        for label in [t["label"] for t in spec["tasks"]]:
            i = self.init[label]
            init_quanta.append(PredictedQuantumDatasetsModel(quantum_id=self.uid("iq", label), task_label=label,
                                                             inputs={c: [model(k)] for c, k in i["in"].items()},
                                                             outputs={c: [model(k)] for c, k in i["out"].items()}))
        comps.init_quanta.root = init_quanta
        for q in self.quanta.values():
            used_ids.add((q["dk"], q["values"]))
            m = PredictedQuantumDatasetsModel(quantum_id=q["id"], task_label=q["label"],
                                              data_coordinate=list(data_id(q["dk"], q["values"]).full_values),
                                              inputs={c: [model(k) for k in ks] for c, ks in q["in"].items()},
                                              outputs={c: [model(k) for k in ks] for c, ks in q["out"].items()})
            if file_records:
                m.datastore_records = self.records(q)
            comps.quantum_datasets[q["id"]] = m
        extractor.update(data_id(dk, v) for dk, v in used_ids)
        comps.dimension_data = DimensionDataAttacher(records=extractor.records.values(), dimensions=self.graph.get_all_dimensions())
        comps.set_thin_graph()
        comps.set_header_counts()
        self.components = comps
        self.by_id = {q["id"]: k for k, q in self.quanta.items()}
        self.edges = set()
        for k, q in self.quanta.items():
            for ks in q["in"].values():
                for d in ks:
                    p = self.datasets[d]["producer"]
                    if p is not None:
                        self.edges.add((p, k))

    def uid(self, *what):
        return uuid.uuid5(NS, repr((self.salt,) + what))

    def records(self, q):
        """File datastore records for the overall inputs of a quantum, as a builder would attach."""
        from lsst.daf.butler.datastore.record_data import SerializedDatastoreRecordData

        ext = [self.datasets[d]["id"] for ks in q["in"].values() for d in ks if self.datasets[d]["producer"] is None]
        if not ext:
            return {}
        cls = "lsst.daf.butler.datastore.stored_file_info.StoredFileInfo"
        recs = {i.hex: {"file_datastore_records": [{"formatter": "lsst.daf.butler.formatters.json.JsonFormatter", "path": f"p/{i}.json",
                                                    "storage_class": qgs.SC, "component": "__NULL_STRING__", "checksum": None,
                                                    "file_size": 10}]} for i in ext}
        return {"FileDatastore@<butlerRoot>": SerializedDatastoreRecordData(dataset_ids=ext, records={cls: recs})}

    def id_edges(self):
        return {(self.quanta[a]["id"], self.quanta[b]["id"]) for a, b in self.edges}

    def upstream(self, key):
        return {a for a, b in self.edges if b == key}

    def downstream(self, key):
        return {b for a, b in self.edges if a == key}

    def closure(self, key, up=True):
        out, todo = set(), [key]
        while todo:
            for x in (self.upstream if up else self.downstream)(todo.pop()):
                if x not in out:
                    out.add(x)
                    todo.append(x)
        return out

    def check_thin(self):
        t = self.components.thin_graph
        expect_eq(sorted(map(str, set(map(tuple, t.edges)))), sorted(map(str, self.id_edges())), "edges of the thin graph")
        expect_eq(self.components.header.n_datasets, len(self.datasets), "number of datasets")
