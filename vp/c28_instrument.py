"""C28: observation packing and instrument naming are exact and reversible."""
from __future__ import annotations

import datetime

from core import Facet, expect, expect_eq, must_raise, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C28"
RULE = ("packer: instrument records and configurations with bounds 1..10**10, packer built directly, from a config field, by "
        "the instrument default or by name, for visits or exposures, with batches of in-bounds and out-of-bounds "
        "(including negative) data IDs in several representations; non-trivial: at least two in-bounds data IDs and one out "
        "of bounds. timestamps: one instant from year 1000..9998 in up to six representations (naive/aware datetimes, "
        "extended and basic ISO strings, other time zones), non-trivial: at least one representation outside UTC. "
        "lookup: instrument lookups by name, class, record and data ID with prefixes and labels, and config override "
        "directories; non-trivial: at least three operations.")

# ------------------------------------------------------------------- packer

BOUNDS = st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4096, 1_000_003, 10**10]))
MODES = ["direct", "default", "field-none", "field-name"]


@st.composite
def packer_cases(draw):
    nd, nv, ne = draw(BOUNDS), draw(BOUNDS), draw(BOUNDS)
    cfg = {}
    if draw(st.integers(0, 3)) == 0:
        cfg["n_detectors"] = draw(BOUNDS)
    if draw(st.integers(0, 3)) == 0:
        cfg["n_observations"] = draw(BOUNDS)
    mode = draw(st.sampled_from(MODES))
    dims = draw(st.sampled_from(["instrument", "visit", "exposure", "detector", "both"]))
    is_exposure = draw(st.sampled_from([None, None, True, False]))
    records = not ({"n_detectors", "n_observations"} <= set(cfg) and mode == "direct" and draw(st.booleans()))
    point = st.tuples(st.sampled_from(["lo", "hi", "mid", "mid", "over", "over1", "neg"]), st.sampled_from(["lo", "hi", "mid", "mid", "mid", "over", "over1", "neg"]),
                      st.integers(0, 10**12))
    return {"nd": nd, "nv": nv, "ne": ne, "cfg": cfg, "mode": mode, "dims": dims, "exp": is_exposure, "records": records,
            "inst": draw(st.sampled_from(["Inst", "Inst", "Inst2"])), "points": draw(st.lists(point, min_size=1, max_size=8)),
            "form": draw(st.sampled_from(["coord", "dict", "kwargs"])), "max_bits": draw(st.booleans())}


def value(kind, n, k):
    return {"lo": 0, "hi": n - 1, "mid": k % n, "over": n, "over1": n + 1 + k, "neg": -1 - k % 7}[kind]


def check_packer(case):
    import lsst.pipe.base as pb
    import vpinst
    from lsst.daf.butler import DataCoordinate, DimensionUniverse

    universe = DimensionUniverse()
    rec = universe["instrument"].RecordClass(name=case["inst"], class_name=f"vpinst.{case['inst']}", detector_max=case["nd"],
                                             visit_max=case["nv"], exposure_max=case["ne"], visit_system=None)
    ids = {"instrument": case["inst"]}
    dims = case["dims"]
    if dims in ("visit", "both"):
        ids["visit"] = 3
    if dims in ("exposure", "both"):
        ids["exposure"] = 4
    if dims == "detector":
        ids["detector"] = 1
    group = universe.conform([k for k in ids if k != "band"])
    if "visit" in ids or "exposure" in ids:
        for name in group.required:
            ids.setdefault(name, {"detector": 0}.get(name, 1))
    data_id = DataCoordinate.from_required_values(group, tuple(ids[k] for k in group.required))
    if case["records"]:
        inst = DataCoordinate.standardize(instrument=case["inst"], universe=universe).expanded({"instrument": rec})
        recs = {name: (rec if name == "instrument" else None) for name in group.elements}
        if dims in ("instrument", "detector"):
            full = DataCoordinate.from_required_values(group, tuple(ids[k] for k in group.required))
            data_id = full.expanded(recs) if dims == "detector" else inst
        else:
            values = {k: ids.get(k, "x") for k in group.names}
            data_id = DataCoordinate.from_full_values(group, tuple(values[k] for k in (*group.required, *group.implied))).expanded(recs)

    mode = case["mode"]
    exp = case["exp"]
    standard = case["inst"] == "Inst" or mode == "direct" or mode == "field-name"

    def make():
        if mode == "direct":
            cfg = pb.ObservationDimensionPackerConfig()
            for k, v in case["cfg"].items():
                setattr(cfg, k, v)
            return pb.ObservationDimensionPacker(data_id, cfg if case["cfg"] or exp else None, is_exposure=exp)
        if mode == "default":
            return pb.Instrument.make_default_dimension_packer(data_id, is_exposure=exp)

        from lsst.pex.config import Config

        class C(Config):
            packer = pb.Instrument.make_dimension_packer_config_field()

        c = C()
        if mode == "field-name":
            c.packer.name = "observation"
        for k, v in case["cfg"].items():
            setattr(c.packer["observation"], k, v)
        return c.packer.apply(data_id, is_exposure=exp)

    if exp is None and dims in ("instrument", "detector") and standard:
        with must_raise(ValueError, msg="neither visit nor exposure is given, but a packer was made"):
            make()
        return False
    packer = make()
    want_exp = exp if exp is not None else "visit" not in ids
    obs = "exposure" if want_exp else "visit"
    expect_eq(set(packer.dimensions.names) >= {"instrument", "detector", obs}, True, "packer dimensions")
    expect_eq(("visit" if obs == "exposure" else "exposure") in packer.dimensions.names, False, "packer has both observation dimensions")
    if not standard:
        expect(isinstance(packer, vpinst.RevPacker), "the instrument's own choice of packer was not used", type(packer))
        return False
    expect(isinstance(packer, pb.ObservationDimensionPacker), "wrong packer", type(packer))
    cfg = case["cfg"] if mode != "default" else {}
    n_det = cfg.get("n_detectors", case["nd"])
    n_obs = cfg.get("n_observations", case["ne"] if want_exp else case["nv"])
    bits = packer.maxBits
    expect(2**bits >= n_det * n_obs, "the advertised width cannot hold all IDs", bits, n_det, n_obs)
    expect(bits == 0 or 2 ** (bits - 1) < n_det * n_obs, "the advertised width is larger than needed", bits, n_det, n_obs)
    seen = {}
    good = bad = 0
    for dk, ok, k in case["points"]:
        d, o = value(dk, n_det, k), value(ok, n_obs, k // 7)
        ident = {"instrument": case["inst"], "detector": d, obs: o}
        coord = DataCoordinate.standardize(ident, dimensions=packer.dimensions, universe=universe)
        arg = {"coord": (coord,), "dict": (ident,), "kwargs": ()}[case["form"]]
        kwargs = ident if case["form"] == "kwargs" else {}
        if not (0 <= d < n_det and 0 <= o < n_obs):
            bad += 1
            with must_raise(ValueError, msg=f"out-of-bounds data ID {ident} was packed (bounds {n_det}, {n_obs})"):
                packer.pack(*arg, **kwargs)
            continue
        good += 1
        packed = packer.pack(*arg, **kwargs)
        if case["max_bits"]:
            expect_eq(packer.pack(*arg, returnMaxBits=True, **kwargs), (packed, bits), "pack with returnMaxBits")
        expect(type(packed) is int and 0 <= packed < n_det * n_obs and packed < 2**bits, "packed value out of range", packed, ident, bits)
        expect_eq(seen.setdefault(packed, (d, o)), (d, o), f"two data IDs pack to {packed}")
        back = packer.unpack(packed)
        expect_eq({k: back[k] for k in ident}, ident, f"unpack({packed})")
        expect_eq(back == coord, True, "unpacked data ID differs")
        expect_eq(back.dimensions == packer.dimensions, True, "dimensions of unpacked data ID")
    return good >= 2 and bad >= 1


# --------------------------------------------------------------- timestamps

STYLES = ["naive-dt", "aware-dt", "ext-naive", "ext-z", "ext-off", "ext-space", "basic-z", "basic-off", "ext-frac", "ext-frac-off", "self"]


@st.composite
def stamp_cases(draw):
    t = draw(st.one_of(st.datetimes(datetime.datetime(1000, 1, 2), datetime.datetime(9998, 12, 30)),
                       st.datetimes(datetime.datetime(1999, 12, 30), datetime.datetime(2030, 1, 2))))
    date_only = draw(st.integers(0, 4)) == 0
    if date_only:
        t = t.replace(hour=0, minute=0, second=0, microsecond=0)
    forms = draw(st.lists(st.tuples(st.sampled_from(STYLES + (["date"] if date_only else [])), st.integers(-14 * 4, 14 * 4).map(lambda q: q * 15)),
                          min_size=1, max_size=6))
    return {"t": t.isoformat(), "forms": forms, "labels": draw(st.lists(st.sampled_from(["DM-1", "a/b", "x"]), max_size=3)),
            "prefix": draw(st.sampled_from([None, "pre", "a/b"]))}


def check_stamp(case):
    import vpinst
    from lsst.pipe.base import Instrument

    t = datetime.datetime.fromisoformat(case["t"])
    want = t.strftime("%Y%m%dT%H%M%S") + "Z"
    nontrivial = False
    inst = vpinst.Inst(collection_prefix=case["prefix"])
    prefix = case["prefix"] or "Inst"
    for style, minutes in case["forms"]:
        tz = datetime.timezone(datetime.timedelta(minutes=minutes))
        aware = t.replace(tzinfo=datetime.UTC)
        local = aware.astimezone(tz)
        sec = local.replace(microsecond=0)
        arg = {"naive-dt": t, "aware-dt": local, "ext-naive": t.replace(microsecond=0).isoformat(), "ext-z": t.replace(microsecond=0).isoformat() + "Z",
               "ext-off": sec.isoformat(), "ext-space": t.replace(microsecond=0).isoformat(sep=" "), "basic-z": want,
               "basic-off": sec.strftime("%Y%m%dT%H%M%S%z"), "ext-frac": t.isoformat(timespec="microseconds"),
               "ext-frac-off": local.isoformat(timespec="microseconds"), "date": t.date().isoformat()}
        value = Instrument.formatCollectionTimestamp(want) if style == "self" else arg[style]
        got = Instrument.formatCollectionTimestamp(value)
        expect_eq(got, want, f"timestamp {value!r} ({style})")
        nontrivial |= style in ("aware-dt", "ext-off", "basic-off", "ext-frac-off") and minutes != 0
        if isinstance(value, str):
            expect_eq(inst.makeCuratedCalibrationRunName(value, *case["labels"]), "/".join([prefix, "calib", *case["labels"], "curated", want]),
                      "curated calibration run name")
    for bad in (0, None, t.date(), 1.5):
        with must_raise(TypeError, msg=f"{bad!r} accepted as a timestamp"):
            Instrument.formatCollectionTimestamp(bad)
    before = datetime.datetime.now(tz=datetime.UTC).strftime("%Y%m%dT%H%M%SZ")
    now = Instrument.makeCollectionTimestamp()
    after = datetime.datetime.now(tz=datetime.UTC).strftime("%Y%m%dT%H%M%SZ")
    expect(before <= now <= after, "makeCollectionTimestamp is not the current time", before, now, after)
    labels = case["labels"]
    expect_eq(inst.makeCollectionName(*labels), "/".join([prefix, *labels]), "collection name")
    expect_eq(inst.makeDefaultRawIngestRunName(), prefix + "/raw/all", "raw run")
    expect_eq(inst.makeUnboundedCalibrationRunName(*labels), "/".join([prefix, "calib", *labels, "unbounded"]), "unbounded calibration run")
    expect_eq(inst.makeCalibrationCollectionName(*labels), "/".join([prefix, "calib", *labels]), "calibration collection")
    expect_eq(inst.makeRefCatCollectionName(*labels), "/".join(["refcats", *labels]), "reference catalog collection")
    expect_eq(inst.makeUmbrellaCollectionName(), prefix + "/defaults", "umbrella collection")
    return nontrivial


# -------------------------------------------------------------------- lookup

NAMES = ["Inst", "Inst2", "Other", "Broken", "Not", "Missing", "vpinst.Inst", "vpinst.Inst2", "vpinst.NotInst", "vpinst.Nothing", "nomodule.X"]


@st.composite
def lookup_cases(draw):
    recs = draw(st.lists(st.sampled_from(["Inst", "Inst2", "Other", "Broken", "Not"]), unique=True, max_size=4))
    ops = draw(st.lists(st.tuples(st.sampled_from(["from_string", "from_string_noreg", "fromName", "importAll", "data_id", "overrides", "sub"]),
                                  st.sampled_from(NAMES), st.sampled_from([None, "pre"])), min_size=1, max_size=6))
    dirs = draw(st.lists(st.dictionaries(st.sampled_from(["t1", "t2"]), st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 99), min_size=1), max_size=2),
                         max_size=3))
    return {"recs": recs, "ops": ops, "dirs": dirs}


CLASSES = {"Inst": "vpinst.Inst", "Inst2": "vpinst.Inst2", "Other": "vpinst.Inst", "Broken": "vpinst.Missing", "Not": "vpinst.NotInst"}


def check_lookup(case):
    import os

    import vpinst
    from lsst.daf.butler import DataCoordinate, DimensionUniverse
    from lsst.pex.config import Config, Field
    from lsst.pipe.base import Instrument
    from lsst.pipe.base.tests.mocks import InMemoryRepo

    repo = InMemoryRepo()
    registry = repo.butler.registry
    for n in case["recs"]:
        registry.insertDimensionData("instrument", {"name": n, "class_name": CLASSES[n], "detector_max": 2, "visit_max": 2, "exposure_max": 2})
    good = {"Inst": vpinst.Inst, "Inst2": vpinst.Inst2, "Other": vpinst.Inst}
    direct = {"vpinst.Inst": vpinst.Inst, "vpinst.Inst2": vpinst.Inst2}

    def checked(inst, cls, prefix):
        expect(type(inst) is cls, "wrong instrument class", type(inst), cls)
        expect_eq(inst.collection_prefix, prefix if prefix is not None else cls.getName(), "collection prefix")

    for op, name, prefix in case["ops"]:
        if op == "sub":  # lookups through a subclass only return that subclass
            cls = good.get(name) if name in case["recs"] else None
            if cls is vpinst.Inst2:
                checked(vpinst.Inst2.fromName(name, registry, collection_prefix=prefix), cls, prefix)
            elif cls is not None:
                with must_raise(TypeError, msg="an instrument of another class was returned"):
                    vpinst.Inst2.fromName(name, registry, collection_prefix=prefix)
        elif op == "fromName":
            if name not in case["recs"]:
                with must_raise(LookupError, msg=f"instrument {name} is not registered but was found"):
                    Instrument.fromName(name, registry, collection_prefix=prefix)
            elif name not in good:
                with must_raise(TypeError, ImportError, msg=f"instrument {name} has no usable class"):
                    Instrument.fromName(name, registry, collection_prefix=prefix)
            else:
                checked(Instrument.fromName(name, registry, collection_prefix=prefix), good[name], prefix)
        elif op in ("from_string", "from_string_noreg"):
            reg = registry if op == "from_string" else None
            cls = direct.get(name) if "." in name else (good.get(name) if reg is not None and name in case["recs"] else None)
            if cls is None:
                with must_raise(RuntimeError, TypeError, msg=f"from_string({name!r})"):
                    Instrument.from_string(name, reg, collection_prefix=prefix)
            else:
                checked(Instrument.from_string(name, reg, collection_prefix=prefix), cls, prefix)
        elif op == "importAll":
            expect_eq(Instrument.importAll(registry), {n: good[n] for n in case["recs"] if n in good}, "importAll")
        elif op == "data_id" and name in case["recs"]:
            d = registry.expandDataId(instrument=name)
            if name in good:
                checked(Instrument.from_data_id(d, collection_prefix=prefix), good[name], prefix)
            else:
                with must_raise(TypeError, ImportError, msg=f"from_data_id({name})"):
                    Instrument.from_data_id(d, collection_prefix=prefix)
        elif op == "overrides":
            with scratch_dir() as root:
                paths = []
                for i, files in enumerate(case["dirs"]):
                    p = os.path.join(root, f"d{i}")
                    os.mkdir(p)
                    paths.append(p)
                    for t, fields in files.items():
                        with open(os.path.join(p, t + ".py"), "w") as f:
                            f.writelines(f"config.{k} = {v}\n" for k, v in sorted(fields.items()))

                class I3(vpinst.Inst):
                    configPaths = tuple(paths)

                class C(Config):
                    a = Field("a", int, default=-1)
                    b = Field("b", int, default=-2)

                for t in ("t1", "t2", "t3"):
                    want = {"a": -1, "b": -2}
                    for files in case["dirs"]:
                        want.update(files.get(t, {}))
                    c = C()
                    I3().applyConfigOverrides(t, c)
                    expect_eq({"a": c.a, "b": c.b}, want, f"instrument overrides for {t}")
    return len(case["ops"]) >= 3


FACETS = [
    Facet("packer", packer_cases, check_packer, quick=4000),
    Facet("timestamps", stamp_cases, check_stamp, quick=1500, shards=2),
    Facet("lookup", lookup_cases, check_lookup, quick=300),
]
