"""Small data repositories, generated runnable pipelines, and a reference model of quantum-graph building.

The repository holds a fixed set of dimension records (two instruments, visits, exposures, a sky map whose patches
overlap the detectors).  A case describes tasks and connections, the datasets that exist (as bit masks over the
data IDs of each dimension group) and the build options.  `Model` computes, from the rows of one data ID query per
independent part of the pipeline and the existence tables, the quanta and datasets a build must contain.
"""
from __future__ import annotations

import functools
import json
import os
import shutil
import tempfile

import astropy.time
import hypothesis.strategies as st
from lsst.daf.butler import Butler, CollectionType, DataCoordinate, DatasetRef, DatasetType, Timespan
from lsst.pipe.base.pipeline_graph import PipelineGraph
import lsst.sphgeom

import core
import vptasks
from core import Violation, expect, expect_eq

SC = "StructuredDataDict"

DIMS = {
    "e": (),
    "i": ("instrument",),
    "d": ("instrument", "detector"),
    "f": ("instrument", "physical_filter"),
    "b": ("band",),
    "v": ("instrument", "visit"),
    "vd": ("instrument", "visit", "detector"),
    "x": ("instrument", "exposure"),
    "xd": ("instrument", "exposure", "detector"),
    "n": ("instrument", "day_obs"),
    "t": ("skymap", "tract"),
    "p": ("skymap", "tract", "patch"),
    "pb": ("skymap", "tract", "patch", "band"),
    "tb": ("skymap", "tract", "band"),
    "h": ("htm7",),
    "k": ("htm9",),
    "l": ("htm5",),
    "hp": ("healpix6",),
    "ih": ("instrument", "htm7"),
    "bh": ("band", "htm7"),
}
COMPOSITE = {a + "+" + b: DIMS[a] + DIMS[b] for a in ("v", "vd", "p", "pb", "t", "tb") for b in ("k", "l", "hp")}
DIMS.update(COMPOSITE)

_S = 0.3


def _box(lon0, lon1, lat0=0.0, lat1=0.5):
    pts = []
    for lon, lat in ((lon0, lat0), (lon1, lat0), (lon1, lat1), (lon0, lat1)):
        pts.append(lsst.sphgeom.UnitVector3d(lsst.sphgeom.LonLat.fromDegrees(lon * _S + 10, lat * _S + 5)))
    return lsst.sphgeom.ConvexPolygon(pts)


def _time(minutes):
    return astropy.time.Time("2021-01-01T00:00:00", format="isot", scale="tai") + astropy.time.TimeDelta(
        minutes * 60.0, format="sec", scale="tai")


def span(a, b):
    return Timespan(None if a is None else _time(a), None if b is None else _time(b))


VISITS = {("I1", 101): ("g", 1, 0, 10, (0.0, 2.1)), ("I1", 102): ("r", 2, 20, 30, (1.0, 3.1)),
          ("I2", 101): ("z", 1, 0, 10, (1.7, 2.4))}
"""(instrument, visit) -> filter, day, begin and end minute, longitudes."""
EXPOSURES = {("I1", 11): ("g", 1, 0, 10, 101), ("I1", 12): ("r", 2, 20, 24, 102), ("I1", 13): ("r", 2, 50, 60, 102),
             ("I1", 14): ("r2", 2, 70, 80, None), ("I2", 11): ("z", 1, 0, 10, 101)}
VDREGIONS = {("I1", 101, 1): (0.0, 1.0), ("I1", 101, 2): (1.1, 2.1), ("I1", 102, 1): (1.0, 2.0),
             ("I1", 102, 2): (2.1, 3.1), ("I2", 101, 1): (1.7, 2.4)}
FILTERS = {"I1": {"g": "g", "r": "r", "r2": "r"}, "I2": {"z": "r"}}
DETECTORS = {"I1": (1, 2), "I2": (1,)}
PATCHES = {(1, 0): (-0.5, 0.6), (1, 1): (0.5, 1.6), (2, 0): (1.5, 2.6), (2, 1): (2.5, 3.6)}
TRACTS = {1: (-0.5, 1.6), 2: (1.5, 3.6)}


def _insert_dimensions(butler):
    R = butler.dimensions

    def rec(element, **kw):
        return R[element].RecordClass(**kw)

    reg = butler.registry
    reg.insertDimensionData("instrument", *[
        rec("instrument", name=n, visit_max=1000, exposure_max=1000, detector_max=16, visit_system=0,
            class_name=f"vptasks.{c}") for n, c in (("I1", "InstI1"), ("I2", "InstI2"))])
    reg.insertDimensionData("physical_filter", *[
        rec("physical_filter", instrument=i, name=f, band=b) for i, fs in FILTERS.items() for f, b in fs.items()])
    reg.insertDimensionData("detector", *[
        rec("detector", instrument=i, id=d, full_name=f"det{d}", raft="A" if d == 1 else "B", name_in_raft=str(d),
            purpose="SCIENCE") for i, ds in DETECTORS.items() for d in ds])
    reg.insertDimensionData("day_obs", *[rec("day_obs", instrument=i, id=20210100 + k) for i in DETECTORS for k in (1, 2)])
    reg.insertDimensionData("visit_system", *[rec("visit_system", instrument=i, id=0, name="s") for i in DETECTORS])
    reg.insertDimensionData("group", *[rec("group", instrument=i, name=f"g{x}") for (i, x) in EXPOSURES])
    reg.insertDimensionData("visit", *[
        rec("visit", instrument=i, id=v, name=f"{i}v{v}", physical_filter=f, day_obs=20210100 + day, seq_num=v,
            exposure_time=float(b - a), timespan=span(a, b), region=_box(*lon))
        for (i, v), (f, day, a, b, lon) in VISITS.items()])
    reg.insertDimensionData("exposure", *[
        rec("exposure", instrument=i, id=x, obs_id=f"{i}x{x}", physical_filter=f, day_obs=20210100 + day,
            group=f"g{x}", seq_num=x, exposure_time=float(b - a), timespan=span(a, b), has_simulated=False,
            can_see_sky=True)
        for (i, x), (f, day, a, b, v) in EXPOSURES.items()])
    reg.insertDimensionData("visit_definition", *[
        rec("visit_definition", instrument=i, visit=v, exposure=x)
        for (i, x), (_, _, _, _, v) in EXPOSURES.items() if v is not None])
    reg.insertDimensionData("visit_system_membership", *[
        rec("visit_system_membership", instrument=i, visit=v, visit_system=0) for (i, v) in VISITS])
    reg.insertDimensionData("visit_detector_region", *[
        rec("visit_detector_region", instrument=i, visit=v, detector=d, region=_box(*lon))
        for (i, v, d), lon in VDREGIONS.items()])
    reg.insertDimensionData("skymap", rec("skymap", name="SK", hash=b"0", tract_max=10, patch_nx_max=2, patch_ny_max=2))
    reg.insertDimensionData("tract", *[rec("tract", skymap="SK", id=t, region=_box(*lon)) for t, lon in TRACTS.items()])
    reg.insertDimensionData("patch", *[
        rec("patch", skymap="SK", tract=t, id=p, cell_x=p, cell_y=0, region=_box(*lon)) for (t, p), lon in PATCHES.items()])


RUNS = ("in1", "in2")
COLLECTION_CHOICES = (("in1",), ("in1", "in2"), ("in2", "in1"), ("inC",), ("in2",))
COLLECTION_FLAT = {"in1": ("in1",), "in2": ("in2",), "inC": ("in2", "in1")}

_TEMPLATE = {}


def template():
    """Path of the template repository of this process."""
    key = os.getpid()
    path = _TEMPLATE.get(key)
    if path is None or not os.path.isdir(path):
        path = tempfile.mkdtemp(prefix="template-", dir=core.scratch_root())
        Butler.makeRepo(path)
        butler = Butler.from_config(path, writeable=True)
        _insert_dimensions(butler)
        for r in RUNS:
            butler.collections.register(r, CollectionType.RUN)
        butler.collections.register("inC", CollectionType.CHAINED)
        butler.collections.redefine_chain("inC", ["in2", "in1"])
        # datasets of both instruments in every run, so that no default instrument is inferred from the collections
        dt = DatasetType("anchor", butler.dimensions.conform(["instrument"]), SC)
        butler.registry.registerDatasetType(dt)
        for r in RUNS:
            butler.registry.insertDatasets(dt, [{"instrument": i} for i in DETECTORS], run=r)
        _TEMPLATE.clear()
        _TEMPLATE[key] = path
        IDS.clear()
        for k, dims in DIMS.items():
            if k == "e":
                IDS[k] = [DataCoordinate.make_empty(butler.dimensions)]
            elif k in COMPOSITE:
                IDS[k] = []  # no datasets with these dimensions are ever inputs
            elif k in ("ih", "bh"):
                IDS[k] = [a.union(b) for b in IDS["h"] for a in IDS[k[0]]]
            elif butler.dimensions.conform(dims).skypix:
                (name,) = dims
                pix = butler.dimensions.skypix_dimensions[name].pixelization
                pixels = []
                for a, b in pix.envelope(_box(-0.5, 3.6)):
                    pixels.extend(range(a, b))
                IDS[k] = [DataCoordinate.standardize({name: p}, universe=butler.dimensions) for p in sorted(pixels)]
            else:
                IDS[k] = sorted(butler.query_data_ids(dims, limit=None), key=lambda d: d.required_values)
    return path


IDS = {}


class Repo:
    """A fresh copy of the template repository."""

    def __init__(self, root):
        src = template()
        self.root = os.path.join(root, "repo")
        shutil.copytree(src, self.root)
        self.butler = Butler.from_config(self.root, writeable=True)
        self.universe = self.butler.dimensions
        self.exists = {}
        """(dataset type name, run) -> {required values: DatasetRef}"""

    def register(self, name, dims, calib=False, sc=SC):
        dt = DatasetType(name, self.universe.conform(DIMS[dims]), sc, isCalibration=calib)
        self.butler.registry.registerDatasetType(dt)
        return dt

    def add(self, name, dims, run, mask, put=False, calib=False):
        """Store the datasets selected by the bits of ``mask`` (cycled over the data IDs)."""
        dt = DatasetType(name, self.universe.conform(DIMS[dims]), SC, isCalibration=calib)
        ids = [d for i, d in enumerate(IDS[dims]) if (mask >> (i % 16)) & 1]
        if not ids:
            return []
        if put:
            refs = [self.butler.put(content_of(name, d, run), dt, d, run=run) for d in ids]
        else:
            refs = self.butler.registry.insertDatasets(dt, ids, run=run)
        table = self.exists.setdefault((name, run), {})
        for ref in refs:
            table[ref.dataId.required_values] = ref
        return refs

    def find(self, name, values, collections):
        for c in collections:
            for run in COLLECTION_FLAT.get(c, (c,)):
                ref = self.exists.get((name, run), {}).get(values)
                if ref is not None:
                    return ref
        return None

    def close(self):
        close = getattr(self.butler, "close", None)
        if close is not None:
            close()


def content_of(name, data_id, run):
    return {"name": name, "id": [str(v) for v in data_id.required_values], "run": run}


# --------------------------------------------------------------------------------------------------------------
# pipelines


def conform(universe, key):
    return universe.conform(DIMS[key])


@functools.lru_cache(None)
def _subset_table():
    from lsst.daf.butler import DimensionUniverse

    u = DimensionUniverse()
    return {(a, b): conform(u, a) <= conform(u, b) for a in DIMS for b in DIMS}


def subset(a, b):
    return _subset_table()[a, b]


WORLDS = {
    "obs": ("e", "i", "d", "f", "b", "v", "vd", "x", "xd", "n"),
    "sky": ("e", "b", "v", "vd", "t", "p", "pb", "tb"),
    "pixv": ("d", "v", "vd", "h"),
    "pixt": ("t", "p", "pb", "h"),
    "pix2v": ("v", "vd", "h", "k", "l", "hp"),
    "pix2t": ("t", "p", "h", "k", "l", "hp"),
}


def sdims(key):
    return list(DIMS[key])


@st.composite
def pipeline_specs(draw, max_tasks=4, worlds=("obs", "obs", "sky", "sky", "pixv", "pixt"), init=True, prereq=True, scalar_errors=True,
                   minimums=True, max_inputs=3, components=False):
    world = draw(st.sampled_from(worlds))
    menu = WORLDS[world]
    n = draw(st.integers(1, max_tasks))
    produced = []  # (name, dims)
    overall = []
    pre = []
    init_made = []
    tasks = []
    for k in range(n):
        label = f"t{k}"
        T = draw(st.sampled_from(menu))
        conns = []
        used = set()
        n_in = draw(st.integers(0 if k else 1, max_inputs))
        for j in range(n_in):
            src = draw(st.sampled_from(("new", "produced", "produced", "overall")))
            if src == "produced" and produced:
                name, D = draw(st.sampled_from(produced))
            elif src == "overall" and overall:
                name, D = draw(st.sampled_from(overall))
            else:
                D = draw(st.sampled_from(menu))
                name = f"raw{len(overall)}"
                overall.append((name, D))
            if name in used:
                continue
            used.add(name)
            fits = subset(D, T)
            multiple = draw(st.booleans()) if fits else True
            if not fits and scalar_errors and draw(st.integers(0, 24)) == 0:
                multiple = False
            minimum = 1
            if minimums:
                minimum = draw(st.sampled_from((1, 1, 1, 0) if not multiple else (1, 1, 0, 2)))
                if fits and minimum == 2:
                    minimum = 1
            conns.append({"conn": f"in{j}", "kind": "in", "name": name, "sc": SC, "dk": D, "dims": sdims(D),
                          "multiple": multiple, "minimum": minimum,
                          "defer_query": draw(st.integers(0, 5)) == 0,
                          "defer_load": draw(st.integers(0, 3)) == 0})
        if prereq and draw(st.integers(0, 2)) == 0:
            if pre and draw(st.booleans()):
                name, D = draw(st.sampled_from(pre))
            else:
                D = draw(st.sampled_from([m for m in menu if subset(m, T)] * 3 + [m for m in menu]))
                name = f"pre{len(pre)}"
                pre.append((name, D))
            fits = subset(D, T)
            conns.append({"conn": "pq", "kind": "prereq", "name": name, "sc": SC, "dk": D, "dims": sdims(D),
                          "multiple": not fits or draw(st.booleans()), "minimum": draw(st.sampled_from((1, 0, 0)))})
        supers = [m for m in menu if subset(T, m)]
        for j in range(draw(st.integers(1, 2))):
            O = T if draw(st.integers(0, 2)) else draw(st.sampled_from(supers))
            name = f"out{k}_{j}"
            conns.append({"conn": f"out{j}", "kind": "out", "name": name, "sc": SC, "dk": O, "dims": sdims(O),
                          "multiple": O != T or draw(st.integers(0, 4)) == 0})
            produced.append((name, O))
        if init and draw(st.integers(0, 3)) == 0:
            conns.append({"conn": "io", "kind": "init_out", "name": f"init{k}", "sc": SC})
            made_here = f"init{k}"
        else:
            made_here = None
        if init and draw(st.integers(0, 3)) == 0:
            if init_made and draw(st.integers(0, 2)):
                name = draw(st.sampled_from(init_made))
            else:
                name = "rawinit"
            conns.append({"conn": "ii", "kind": "init_in", "name": name, "sc": SC})
        if made_here:
            init_made.append(made_here)
        tasks.append({"label": label, "dk": T, "dims": sdims(T), "conns": conns})
    return {"world": world, "tasks": tasks}


MASKS = st.sampled_from((0xFFFF, 0xFFFF, 0xFFFF, 0, 1, 2, 5, 6, 0xAAAA, 0x5555, 0x7FFF, 0xFFFE, 0xFF00, 0x00FF, 0x1248,
                         0x33CC, 0xFBFD)) | st.integers(0, 0xFFFF)


@st.composite
def existence(draw, spec):
    """Datasets of the overall inputs: {name: {run: mask}} (absent: the dataset type is not registered)."""
    made = {c["name"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("out", "init_out")}
    result = {}
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq", "init_in") and c["name"] not in made and c["name"] not in result:
                if draw(st.integers(0, 19)) == 0:
                    result[c["name"]] = None
                else:
                    weights = (2, 1) if c["kind"] == "in" else (3, 1)
                    r = {}
                    if draw(st.integers(0, 9)):
                        r["in1"] = draw(MASKS) if c["kind"] == "in" or draw(st.integers(0, 2)) == 0 else 0xFFFF
                    if draw(st.integers(0, 2)) == 0:
                        r["in2"] = draw(MASKS)
                    result[c["name"]] = r
    return result


WHERES = {
    "obs": ("", "", "instrument='I1'", "instrument='I1' AND detector=1", "instrument='I1' AND visit=101",
            "instrument='I1' AND visit IN (101, 102)", "instrument='I2'", "instrument='I1' AND exposure > 11",
            "instrument='I1' AND detector=1 AND visit=102", "band='r'", "instrument='I1' AND detector.raft='B'",
            "instrument='I1' AND (visit=101 OR detector=2)", "instrument='I1' AND physical_filter='r2'",
            "instrument='I1' AND NOT (visit=101)", "instrument='I9'", "instrument='I1' AND visit.exposure_time > 5"),
    "sky": ("", "", "instrument='I1'", "skymap='SK' AND tract=1", "skymap='SK' AND tract=1 AND patch=1",
            "instrument='I1' AND skymap='SK' AND visit=101", "instrument='I1' AND skymap='SK' AND tract=2 AND detector=2",
            "band='r'", "instrument='I1' AND visit=102", "instrument='I1' AND detector=1",
            "skymap='SK' AND patch=0", "instrument='I2' AND skymap='SK' AND tract IN (1, 2)"),
    "pixv": ("", "instrument='I1'", "instrument='I1' AND detector=1", "instrument='I1' AND visit=101",
             "instrument='I1' AND visit=102 AND detector=2"),
    "pixt": ("", "skymap='SK' AND tract=1", "skymap='SK' AND tract=1 AND patch=1", "skymap='SK'"),
}
WHERES["pix2v"] = WHERES["pixv"]
WHERES["pix2t"] = WHERES["pixt"]


def make_graph(spec, order=None, task_class="vptasks.SpecTask", value=None):
    from lsst.utils.doImport import doImport

    cls = doImport(task_class)
    graph = PipelineGraph()
    tasks = spec["tasks"]
    for i in (order if order is not None else range(len(tasks))):
        t = tasks[i]
        config = cls.ConfigClass()
        config.spec = json.dumps({k: v for k, v in t.items() if k != "label"})
        if value is not None:
            config.value = value
        if "config" in t:
            for k, v in t["config"].items():
                setattr(config, k, v)
        graph.add_task(t["label"], cls, config)
    return graph


def setup_existence(repo, spec, exist, put=False):
    dims = {}
    for t in spec["tasks"]:
        for c in t["conns"]:
            if c["kind"] in ("in", "prereq", "init_in"):
                dims[c["name"]] = (c.get("dk", "e"), bool(c.get("calib")))
    for name, runs in exist.items():
        if runs is None:
            continue
        dk, calib = dims[name]
        repo.register(name, dk, calib)
        for run, mask in runs.items():
            repo.add(name, dk, run, mask, put=put, calib=calib)


# --------------------------------------------------------------------------------------------------------------
# the reference model


class Expected:
    def __init__(self):
        self.errors = set()  # acceptable exception kinds, if any
        self.quanta = {}  # (label, values) -> {"in": {conn: {(name, values): (id or None, run)}}, "out": same}
        self.tasks = []
        self.init = {}


class Model:
    """What a build must produce."""

    def __init__(self, repo, spec, *, collections, output_run, where="", constraint="ALL", tables=(),
                 skip_in=(), clobber=False, retained=None, adjust=None, adjust_all=None, prune=None):
        self.repo, self.spec = repo, spec
        self.collections, self.output_run = collections, output_run
        self.where, self.constraint, self.tables = where, constraint, tables
        self.skip_in, self.clobber, self.retained = skip_in, clobber, retained
        self.adjust, self.adjust_all, self.prune = adjust, adjust_all, prune
        self.undecided = False
        u = repo.universe
        self.u = u
        self.tasks = {t["label"]: t for t in spec["tasks"]}
        self.producer = {c["name"]: t["label"] for t in spec["tasks"] for c in t["conns"] if c["kind"] in ("out", "init_out")}
        self.dims = {}
        for t in spec["tasks"]:
            for c in t["conns"]:
                self.dims[c["name"]] = conform(u, c.get("dk", "e"))
        for t in spec["tasks"]:
            self.dims[t["label"] + "_metadata"] = conform(u, t["dk"])
            self.dims[t["label"] + "_log"] = conform(u, t["dk"])
        self.prereq_rows_cache = {}
        self.coordinates = {}
        self.pixels_without_region = False

    def conns(self, label, *kinds):
        return [c for c in self.tasks[label]["conns"] if c["kind"] in kinds]

    def components(self):
        """Groups of tasks connected through datasets produced within the pipeline (init datasets aside)."""
        parent = {l: l for l in self.tasks}

        def root(x):
            while parent[x] != x:
                x = parent[x]
            return x

        for l in self.tasks:
            for c in self.conns(l, "in"):
                if c["name"] in self.producer:
                    parent[root(l)] = root(self.producer[c["name"]])
        groups = {}
        for l in self.tasks:
            groups.setdefault(root(l), []).append(l)
        return list(groups.values())

    def topo(self):
        order, seen = [], set()

        def visit(l):
            if l in seen:
                return
            seen.add(l)
            for c in self.conns(l, "in", "init_in"):
                if c["name"] in self.producer:
                    visit(self.producer[c["name"]])
            order.append(l)

        for l in self.tasks:
            visit(l)
        return order

    def query_rows(self, dims, where=""):
        if "htm7" in dims.names and not ({"visit", "tract"} & set(dims.names)) and not (
                "visit" in where or "tract" in where or "patch" in where):
            # no region to generate pixels from: every pixel (a query can only do this from datasets)
            self.pixels_without_region = True
            rest = self.u.conform([n for n in dims.names if n != "htm7"])
            return {r.union(h) for r in (self.query_rows(rest, where) if rest or where else [DataCoordinate.make_empty(self.u)])
                    for h in IDS["h"]}
        with self.repo.butler.query() as q:
            q = q.join_dimensions(dims)
            if where:
                q = q.where(where)
            q._allow_duplicate_overlaps = True
            return set(q.data_ids(dims))

    def add_pixels(self, rows, dims, pixel):
        """Relate each row to the pixels of a pixelization the database knows nothing about."""
        target = self.u.skypix_dimensions[pixel]
        result = set()
        for r in rows:
            if "htm7" in dims.names:
                source = self.u.skypix_dimensions["htm7"]
                index = r["htm7"]
                if target.system == source.system:
                    if target.level < source.level:
                        pixels = {index >> (2 * (source.level - target.level))}
                    else:
                        n = 2 * (target.level - source.level)
                        pixels = set(range(index << n, (index + 1) << n))
                else:
                    pixels = {i for a, b in target.pixelization.envelope(source.pixelization.pixel(index)) for i in range(a, b)}
            else:
                region = self.repo.butler.registry.expandDataId(r).region
                pixels = {i for a, b in target.pixelization.envelope(region) for i in range(a, b)}
            for i in pixels:
                result.add(r.union(DataCoordinate.standardize({pixel: i}, universe=self.u)))
        return result

    def outputs_of(self, label):
        """All output names with their connection names, including metadata and log."""
        return [(c["conn"], c["name"]) for c in self.conns(label, "out")] + [
            ("_metadata", label + "_metadata"), ("_log", label + "_log")]

    def run(self):
        x = Expected()
        find = self.repo.find
        quanta = {l: set() for l in self.tasks}
        ins, outs = {}, {}
        ref = {}
        for group in self.components():
            names = {n for l in group for c in self.conns(l, "in", "out") for n in [c["name"]]}
            dims = self.u.empty
            for l in group:
                dims = dims | conform(self.u, self.tasks[l]["dk"])
            for n in names:
                dims = dims | self.dims[n]
            unq = [s for s in dims.skypix if s != "htm7"]
            if unq:
                (pixel,) = unq
                dims = self.u.conform([n for n in dims.names if n != pixel])
            rows = self.query_rows(dims, self.where)
            if unq:
                rows = self.add_pixels(rows, dims, pixel)
            overall = [n for n in names if n not in self.producer]
            deferred = {c["name"] for l in self.tasks for c in self.conns(l, "in") if c.get("defer_query") or c["minimum"] == 0}
            constrained = {n for n in overall if self.dims[n]}
            if self.constraint == "ALL":
                # a dataset type constrains the query unless a connection that reads it opts out
                constrained -= deferred
            elif self.constraint == "OFF":
                constrained = set()
            else:
                constrained &= set(self.constraint)
                if not constrained:
                    x.errors.add("QuantumGraphBuilderError")
                    return x
            if any(self.repo_type_missing(n) for n in constrained):
                x.errors.add("QuantumGraphBuilderError")
                return x
            for n in constrained:
                d = self.dims[n]
                rows = {r for r in rows if find(n, r.subset(d).required_values, self.collections) is not None}
            for cols, values in self.tables:
                d = self.u.conform(cols)
                keep = {tuple(v) for v in values}
                rows = {r for r in rows if tuple(r[c] for c in cols) in keep}
            for r in rows:
                for l in group:
                    coordinate = r.subset(conform(self.u, self.tasks[l]["dk"]))
                    q = (l, coordinate.required_values)
                    self.coordinates[q] = coordinate
                    quanta[l].add(q[1])
                    for c in self.conns(l, "in"):
                        ins.setdefault(q, set()).add((c["name"], r.subset(self.dims[c["name"]]).required_values))
                    for _, n in self.outputs_of(l):
                        outs.setdefault(q, set()).add((n, r.subset(self.dims[n]).required_values))
            for n in overall:
                for r in rows:
                    v = r.subset(self.dims[n]).required_values
                    got = find(n, v, self.collections)
                    if got is not None:
                        ref[n, v] = got
        for (l, n), (refs, alone) in self.supplied.items():
            for v in quanta[l]:
                mine = ins.setdefault((l, v), set())
                if alone:
                    mine.difference_update([k for k in mine if k[0] == n])
                for r in refs:
                    mine.add((n, r.dataId.required_values))
                    ref[n, r.dataId.required_values] = r
        order = self.topo()
        # an output is produced by at most one quantum
        made_by = {}
        for q, keys in outs.items():
            for k in keys:
                made_by.setdefault(k, []).append(q)
        self.duplicate_producers = {k: v for k, v in made_by.items() if len(v) > 1}
        self.candidates = {l: len(v) for l, v in quanta.items()}
        # skipping
        skipped = {l: set() for l in order}
        removed_data = set()

        def skip_ref(k):
            return find(k[0], k[1], self.skip_in) if self.skip_in else None

        decisions = {}
        for l in order:
            for v in quanta[l]:
                decisions[l, v] = skip_ref((l + "_metadata", v)) is not None
        if self.retained is not None:
            todo = [q for q, s in decisions.items() if not s]
            while todo:
                q = todo.pop()
                for k in ins.get(q, ()):
                    if k[0] in self.retained or k[0] not in self.producer:
                        continue
                    for p in made_by.get(k, ()):
                        if decisions.get(p):
                            decisions[p] = False
                            self.forced = True
                            todo.append(p)
        self.decisions = decisions
        for l in order:
            for v in sorted(quanta[l]):
                q = (l, v)
                if decisions[q]:
                    skipped[l].add(v)
                    for k in outs[q]:
                        r = skip_ref(k)
                        if r is not None:
                            ref[k] = r
                        else:
                            removed_data.add(k)
                            ref.pop(k, None)
                else:
                    for k in outs[q]:
                        r = find(k[0], k[1], [self.output_run])
                        if r is not None and not self.clobber:
                            x.errors.add("OutputExistsError")
                        ref[k] = r if r is not None else "new"
            quanta[l] -= skipped[l]
        if x.errors:
            return x
        init_ref = {}
        for l in order:
            t = self.tasks[l]
            records = {}
            for v in sorted(quanta[l]):
                q = (l, v)
                record = records[v] = {"in": {}, "out": {}}
                for c in self.conns(l, "in"):
                    got = {k: ref[k] for k in ins.get(q, ()) if k[0] == c["name"] and k in ref}
                    record["in"][c["conn"]] = got
                for c in self.conns(l, "prereq"):
                    record["in"][c["conn"]] = self.prereqs(l, v, c, ins.get(q, set()), outs[q], ref)
                for conn, n in self.outputs_of(l):
                    record["out"][conn] = {k: ref[k] for k in outs[q] if k[0] == n}
            if self.adjust_all is not None:
                gone = self.adjust_all(l, records)
                for k in gone:
                    ref.pop(k, None)
            for v, record in records.items():
                q = (l, v)
                no_work = False
                scalar = False
                if self.adjust is not None:
                    self.adjust(l, v, record)
                if record.get("no_work"):
                    no_work = True
                for c in self.conns(l, "in") if not no_work else ():
                    got = record["in"][c["conn"]]
                    if not c["multiple"] and len(got) > 1:
                        scalar = True
                    if len(got) < c["minimum"]:
                        no_work = True
                if scalar:
                    x.errors.add("ScalarError")
                    if not no_work:
                        x.hard = True
                if not no_work and not scalar:
                    for c in self.conns(l, "prereq"):
                        got = record["in"][c["conn"]]
                        if len(got) < c["minimum"]:
                            x.errors.add("FileNotFoundError")
                            x.hard = True
                        elif not c["multiple"] and len(got) > 1:
                            x.errors.add("ScalarError")
                            x.hard = True
                    for c in self.conns(l, "out"):
                        if not c["multiple"] and len(record["out"][c["conn"]]) > 1:
                            x.errors.add("ScalarError")
                            x.hard = True
                if record.get("empty"):
                    no_work = True
                elif record.get("inputless") and not no_work:
                    x.errors.add("QuantumGraphBuilderError")
                    x.hard = True
                if no_work:
                    for d in record["all_out"].values() if "all_out" in record else record["out"].values():
                        for k in d:
                            ref.pop(k, None)
                    continue
                if record.get("removed_outputs"):
                    for k in record["removed_outputs"]:
                        ref.pop(k, None)
                x.quanta[q] = record
            live = [v for v in quanta[l] if (l, v) in x.quanta]
            if live:
                x.tasks.append(l)
                i = {"in": {}, "out": {}}
                for c in self.conns(l, "init_in"):
                    n = c["name"]
                    got = init_ref.get(n)
                    if got is None and n not in self.producer:
                        got = find(n, (), self.collections)
                    if got is None:
                        x.errors.add("InitInputMissingError")
                        x.hard = True
                    i["in"][c["conn"]] = got
                for conn, n in [(c["conn"], c["name"]) for c in self.conns(l, "init_out")] + [("_config", l + "_config")]:
                    r = find(n, (), [self.output_run])
                    init_ref[n] = r if r is not None else "new"
                    i["out"][conn] = init_ref[n]
                x.init[l] = i
            elif skipped[l]:
                for n in [c["name"] for c in self.conns(l, "init_out")] + [l + "_config"]:
                    r = find(n, (), self.skip_in)
                    if r is None:
                        x.errors.add("InitInputMissingError")
                        x.hard = True
                    init_ref[n] = r
        self.skipped = skipped
        if self.prune is not None:
            self.apply_prune(x)
        return x

    def apply_prune(self, x):
        """Remove quanta of one task that lead to no quantum of another, and all that depends on them."""
        source, anchor = self.prune
        makers = {k: q for q, r in x.quanta.items() for d in r["out"].values() for k in d}
        children = {q: set() for q in x.quanta}
        for q, r in x.quanta.items():
            for d in r["in"].values():
                for k, v in d.items():
                    if k in makers:
                        children[makers[k]].add(q)

        def below(q):
            seen, todo = set(), [q]
            while todo:
                for c in children[todo.pop()]:
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
            return seen

        gone = set()
        for q in x.quanta:
            if q[0] == source and not any(c[0] == anchor for c in below(q)):
                gone |= {q} | below(q)
        self.n_pruned = len(gone)
        before = list(x.tasks)
        for q in gone:
            del x.quanta[q]
        x.tasks = [l for l in before if any(q[0] == l for q in x.quanta)]
        dropped = set(before) - set(x.tasks)
        for l in dropped:
            del x.init[l]
        for l in x.tasks:
            if any(self.producer.get(c["name"]) in dropped for c in self.conns(l, "init_in")):
                self.undecided = True

    def repo_type_missing(self, name):
        return name in self.unregistered

    unregistered = frozenset()

    supplied = {}
    """input datasets given by the caller: (task label, dataset type) -> (refs, whether these are all)"""

    # ---------------------------------------------------------------------------------------------- prerequisites

    def prereqs(self, label, values, c, in_keys, out_keys, ref):
        n, D = c["name"], self.dims[c["name"]]
        T = conform(self.u, self.tasks[label]["dk"])
        q = self.coordinates[label, values]
        result = {}
        if D <= T:
            v = q.subset(D).required_values
            got = self.repo.find(n, v, self.collections)
            if got is not None:
                result[n, v] = got
            return result
        key = (T | D)
        rows = self.prereq_rows_cache.get(key)
        if rows is None:
            rows = self.prereq_rows_cache[key] = self.query_rows(key)
        for r in rows:
            if r.subset(T).required_values == values:
                v = r.subset(D).required_values
                got = self.repo.find(n, v, self.collections)
                if got is not None:
                    result[n, v] = got
        return result


# --------------------------------------------------------------------------------------------------------------
# comparing a built graph with the model


ERROR_NAMES = ("QuantumGraphBuilderError", "OutputExistsError", "ScalarError", "FileNotFoundError",
               "InitInputMissingError", "UnimplementedQueryError")


def build_outcome(function):
    """Run a build; returns (result, None) or (None, exception name)."""
    try:
        return function(), None
    except Exception as exc:
        name = type(exc).__name__
        if name in ERROR_NAMES:
            return None, name
        raise


def values_of(dims, full):
    """Required values for the full values of a serialized data ID."""
    return DataCoordinate.from_full_values(dims, tuple(full)).required_values if len(full) else ()


def compare_datasets(got, want, dims, what, output_run, ids):
    """Compare a list of PredictedDatasetModel with {key: ref or "new"}; collects dataset IDs."""
    keys = {}
    for d in got:
        k = (d.dataset_type_name, values_of(dims[d.dataset_type_name], d.data_coordinate))
        expect(k not in keys, f"{what}: dataset {k} listed twice")
        keys[k] = d
    expect_eq(sorted(map(str, keys)), sorted(map(str, want)), f"{what}: datasets")
    for k, d in keys.items():
        r = want[k]
        if r == "new":
            expect_eq(d.run, output_run, f"{what}: run of predicted output {k}")
        else:
            expect_eq((d.dataset_id, d.run), (r.id, r.run), f"{what}: existing dataset {k}")
            continue  # calibrations: one data ID, several datasets
        seen = ids.setdefault(k, d.dataset_id)
        expect_eq(d.dataset_id, seen, f"{what}: {k} has two dataset IDs in one graph")


def compare_components(components, expected, model):
    """Compare the components of a predicted graph with the model's expectation."""
    dims = model.dims
    got = {}
    ids = {}
    for qid, q in components.quantum_datasets.items():
        expect_eq(q.quantum_id, qid, "key of a quantum")
        key = (q.task_label, values_of(conform(model.u, model.tasks[q.task_label]["dk"]), q.data_coordinate))
        expect(key not in got, f"two quanta for {key}")
        got[key] = q
    expect_eq(sorted(map(str, got)), sorted(map(str, expected.quanta)), "quanta of the graph")
    made = {}
    pred = {}
    for key, q in got.items():
        want = expected.quanta[key]
        expect_eq(sorted(q.inputs), sorted(want["in"]), f"input connections of {key}")
        expect_eq(sorted(q.outputs), sorted(want["out"]), f"output connections of {key}")
        for conn in want["in"]:
            compare_datasets(q.inputs[conn], want["in"][conn], dims, f"{key} input {conn}", model.output_run, ids)
        for conn in want["out"]:
            compare_datasets(q.outputs[conn], want["out"][conn], dims, f"{key} output {conn}", model.output_run, ids)
            for d in q.outputs[conn]:
                expect_eq(d.run, model.output_run, f"output run of {key} {conn}")
                expect(d.dataset_id not in made, f"dataset {d} is produced by two quanta")
                made[d.dataset_id] = q.quantum_id
    edges = set()
    for key, q in got.items():
        for conn in expected.quanta[key]["in"]:
            for d in q.inputs[conn]:
                if d.dataset_id in made:
                    edges.add((made[d.dataset_id], q.quantum_id))
    by_id = {}
    for k, i in ids.items():
        expect(i not in by_id, f"datasets {k} and {by_id.get(i)} share an ID")
        by_id[i] = k
    init = {q.task_label: q for q in components.init_quanta.root}
    expect_eq(sorted(init), sorted([""] + list(expected.init)), "tasks with init quanta")
    d2 = {n: model.u.empty for n in ["packages"] + [l + "_config" for l in model.tasks]}
    d2.update(dims)
    for l, want in expected.init.items():
        for side, datasets in (("in", init[l].inputs), ("out", init[l].outputs)):
            expect_eq(sorted(datasets), sorted(want[side]), f"init connections of {l}")
            names = {c["conn"]: c["name"] for c in model.tasks[l]["conns"]}
            names["_config"] = l + "_config"
            for conn, r in want[side].items():
                compare_datasets(datasets[conn], {(names[conn], ()): r}, d2, f"{l} init {conn}", model.output_run, ids)
    thin = components.thin_graph
    expect_eq(sorted((l, str(q.quantum_id), tuple(q.data_coordinate)) for l, qs in thin.quanta.items() for q in qs),
              sorted((q.task_label, str(i), tuple(q.data_coordinate)) for i, q in components.quantum_datasets.items()),
              "thin graph quanta")
    expect_eq(sorted(map(str, set(map(tuple, thin.edges)))), sorted(map(str, edges)), "edges between quanta")
    expect_eq(components.header.n_quanta, len(got), "number of quanta in the header")
    expect_eq({k: v for k, v in components.header.n_task_quanta.items() if v},
              {l: sum(1 for k in got if k[0] == l) for l in expected.tasks}, "quanta per task in the header")
    return got, ids, edges
