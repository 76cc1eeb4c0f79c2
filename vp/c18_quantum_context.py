"""C18: a task can only read its inputs and write its outputs, faithfully."""
from __future__ import annotations

import types
import uuid

import hypothesis.strategies as st
from core import Facet, Violation, expect, expect_eq, must_raise

LEVEL = "exploration"
RULE = ("histories of 2-10 reads and writes through a quantum context over a recording butler, for generated connections (scalar / "
        "multiple / deferred / prerequisite / optional; output names that look like metadata or log names) and quanta; targets mix "
        "the quantum's own references with outputs, inputs of other quanta, same data ID under another UUID, and the executor's "
        "metadata and log references; non-trivial if at least one read preceded a write or a foreign reference was offered")

NAMES_IN = ["calexp", "src", "ref_cat", "flat_log", "bias_metadata"]
NAMES_OUT = ["coadd", "table", "summary_metadata", "task_log", "x_log_metadata", "plain"]


class Odd:
    """A value whose truth value, equality and length are unusable."""

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        raise ValueError("truth value is ambiguous")

    def __eq__(self, other):
        raise ValueError("ambiguous comparison")

    __hash__ = object.__hash__


VALUES = st.sampled_from(["odd", "zero", "empty-str", "empty-list", "list", "tuple", "struct", "false"])


def make_value(kind, n):
    from lsst.pipe.base import Struct

    if kind == "odd":
        return Odd(n)
    # Fresh objects, so that identity tells apart values put for different references.
    return {"zero": lambda: 0.0 * (n + 1), "empty-str": lambda: "", "empty-list": lambda: [], "list": lambda: [n, n + 1],
            "tuple": lambda: (n, [n]), "struct": lambda: Struct(a=n), "false": lambda: False}[kind]()


class FakeHandle:
    def __init__(self, ref):
        self.ref = ref


class RecordingButler:
    def __init__(self, universe):
        self.dimensions = universe
        self.inputs = {}
        self.calls = []
        self.stored = {}

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.calls.append(("get", ref))
        return self.inputs[ref.id]

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        self.calls.append(("deferred", ref))
        return FakeHandle(ref)

    def put(self, obj, ref, /, *, provenance=None):
        snap = None
        if provenance is not None:
            snap = ([r.id for r in provenance.inputs], provenance.quantum_id, {k: dict(v) for k, v in provenance.extras.items()})
        self.calls.append(("put", ref))
        expect(ref.id not in self.stored, f"dataset {ref} written twice by one put")
        self.stored[ref.id] = (obj, ref, snap)
        return ref


@st.composite
def conns(draw):
    ins = []
    for n in draw(st.lists(st.sampled_from(NAMES_IN), min_size=1, max_size=4, unique=True)):
        ins.append({"name": n, "multiple": draw(st.booleans()), "deferred": draw(st.integers(0, 2)) == 0,
                    "prereq": draw(st.integers(0, 3)) == 0, "n": draw(st.integers(0, 4))})
    outs = []
    for n in draw(st.lists(st.sampled_from(NAMES_OUT), min_size=1, max_size=4, unique=True)):
        outs.append({"name": n, "multiple": draw(st.booleans()), "n": draw(st.integers(0, 4))})
    return {"ins": ins, "outs": outs, "scalar_overflow": draw(st.integers(0, 9)) == 0, "qid": draw(st.booleans()),
            "auto": draw(st.booleans())}


PICK = st.tuples(st.sampled_from(["in", "in", "in", "out", "other-id", "other-data", "foreign", "auto", "none"]), st.integers(0, 30),
                 st.integers(0, 3).map(lambda i: i == 0))
PICK_OUT = st.tuples(st.sampled_from(["out", "out", "out", "in", "other-id", "other-data", "foreign", "auto"]), st.integers(0, 30),
                     VALUES)
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("get"), "pick": PICK}),
    st.fixed_dictionaries({"op": st.just("get_list"), "picks": st.lists(PICK, max_size=5), "tuple": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("get_all"), "drop": st.integers(0, 15), "bad": st.one_of(st.none(), PICK), "where": st.integers(0, 5)}),
    st.fixed_dictionaries({"op": st.just("put"), "pick": PICK_OUT}),
    st.fixed_dictionaries({"op": st.just("put_list"), "picks": st.lists(PICK_OUT, max_size=5), "extra": st.sampled_from([0, 0, 0, 1, -1]),
                           "tuple": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("put_all"), "give": st.integers(0, 15), "none": st.integers(0, 15), "drop": st.integers(0, 15),
                           "short": st.integers(0, 15), "kind": VALUES, "extra_attr": st.booleans(), "tuple": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("run"), "give": st.integers(0, 15), "kind": VALUES}),
    st.fixed_dictionaries({"op": st.just("extra"), "pick": st.integers(0, 30), "foreign": st.integers(0, 3).map(lambda i: i == 0)}),
    st.fixed_dictionaries({"op": st.just("bad_type"), "which": st.integers(0, 5)}),
)


@st.composite
def cases(draw):
    return {"conns": draw(conns()), "ops": draw(st.lists(OPS, min_size=2, max_size=10))}


def setup():
    import lsst.daf.butler
    import lsst.pipe.base  # noqa: F401


class World:
    def __init__(self, spec):
        from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, Quantum
        from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections, Struct
        from lsst.pipe.base import connectionTypes as cT

        self.spec = spec
        u = self.universe = DimensionUniverse()
        ns = {}
        for c in spec["ins"]:
            k = cT.PrerequisiteInput if c["prereq"] else cT.Input
            ns["i_" + c["name"]] = k(name=c["name"], storageClass="StructuredDataDict", dimensions=("instrument", "detector"),
                                     multiple=c["multiple"], deferLoad=c["deferred"], doc="", minimum=0)
        for c in spec["outs"]:
            ns["o_" + c["name"]] = cT.Output(name=c["name"], storageClass="StructuredDataDict", dimensions=("instrument", "detector"),
                                             multiple=c["multiple"], doc="")
        C = types.new_class("GenConnections", (PipelineTaskConnections,), {"dimensions": ("instrument",)}, lambda d: d.update(ns))
        Cfg = types.new_class("GenConfig", (PipelineTaskConfig,), {"pipelineConnections": C})
        self.config = Cfg()
        self.connections = C(config=self.config)
        world = self

        class GenTask(PipelineTask):
            ConfigClass = Cfg
            _DefaultName = "gen"

            def run(self, **kwargs):
                world.run_kwargs = kwargs
                return world.run_result

        self.task = GenTask(config=self.config)
        self.Struct = Struct
        dims = u.conform(["instrument", "detector"])

        def did(i):
            return DataCoordinate.standardize(instrument="I", detector=i, universe=u)

        def dt(name, sc="StructuredDataDict"):
            return DatasetType(name, dims, sc)

        def ref(t, i, run):
            return DatasetRef(t, did(i), run=run)

        self.butler = RecordingButler(u)
        self.ins, self.outs = {}, {}
        qin, qout = {}, {}
        for c in spec["ins"]:
            n = c["n"]
            if not c["multiple"] and not spec["scalar_overflow"]:
                n = min(n, 1)
            t = dt(c["name"])
            refs = [ref(t, 10 - i, "in") for i in range(n)]
            self.ins["i_" + c["name"]] = refs
            qin[t] = refs
            for r in refs:
                self.butler.inputs[r.id] = object()
        for c in spec["outs"]:
            t = dt(c["name"])
            refs = [ref(t, (7 * i) % 11, "out") for i in range(c["n"] if c["multiple"] else min(c["n"], 1))]
            self.outs["o_" + c["name"]] = refs
            qout[t] = refs
        idims = u.conform(["instrument"])
        iid = DataCoordinate.standardize(instrument="I", universe=u)
        self.auto = []
        if spec["auto"]:
            for name, sc in (("gen_metadata", "TaskMetadata"), ("gen_log", "ButlerLogRecords")):
                t = DatasetType(name, idims, sc)
                r = DatasetRef(t, iid, run="out")
                qout[t] = [r]
                self.auto.append(r)
        self.all_in = [r for rs in self.ins.values() for r in rs]
        self.all_out = [r for rs in self.outs.values() for r in rs]
        self.other_id = [DatasetRef(r.datasetType, r.dataId, run="elsewhere") for r in self.all_in + self.all_out]
        self.other_data = [ref(r.datasetType, 99, r.run) for r in self.all_in + self.all_out]
        self.foreign = [ref(dt("unrelated"), i, "in") for i in range(3)]
        for r in self.other_id + self.other_data + self.foreign + self.auto:
            self.butler.inputs[r.id] = object()
        for r in self.all_out:
            self.butler.inputs[r.id] = object()
        self.quantum = Quantum(taskName="gen", taskClass=GenTask, dataId=iid, inputs=qin, outputs=qout)
        self.qid = uuid.UUID(int=77) if spec["qid"] else None

    def pool(self, kind):
        return {"in": self.all_in, "out": self.all_out, "other-id": self.other_id, "other-data": self.other_data,
                "foreign": self.foreign, "auto": self.auto}[kind]

    def pick(self, kind, n):
        if kind == "none":
            return None
        p = self.pool(kind)
        if not p:
            return self.foreign[n % 3]
        return p[n % len(p)]


def check_refs(w, inrefs, outrefs):
    """buildDatasetRefs maps each connection to its references, in order."""
    from lsst.pipe.base.connections import DeferredDatasetRef

    got = dict(iter(inrefs))
    exp = {}
    for c in w.spec["ins"]:
        refs = w.ins["i_" + c["name"]]
        if not c["multiple"] and not refs:
            continue
        exp["i_" + c["name"]] = ([r.id for r in refs] if c["multiple"] else refs[0].id, c["deferred"])
    expect_eq(set(got), set(exp), "attributes of input references")
    expect_eq(set(inrefs.keys()), set(exp), "keys of input references")
    expect_eq(len(inrefs), len(exp), "number of input connections")
    for k, (ids, deferred) in exp.items():
        v = got[k]
        expect(getattr(inrefs, k) is v, "iteration and attribute access agree")
        rs = list(v) if isinstance(ids, list) else [v]
        for r in rs:
            expect_eq(isinstance(r, DeferredDatasetRef), deferred, f"deferred reference for {k}")
        seq = [(r.datasetRef if deferred else r).id for r in rs]
        expect_eq(seq, ids if isinstance(ids, list) else [ids], f"references of {k}")
    got = dict(iter(outrefs))
    exp = {}
    for c in w.spec["outs"]:
        refs = w.outs["o_" + c["name"]]
        if c["multiple"]:
            exp["o_" + c["name"]] = [r.id for r in refs]
        elif refs:
            exp["o_" + c["name"]] = refs[0].id
    expect_eq(set(got), set(exp), "attributes of output references")
    for k, ids in exp.items():
        expect_eq([r.id for r in got[k]] if isinstance(ids, list) else got[k].id, ids, f"references of {k}")


def check(case):
    from lsst.pipe.base import QuantumContext
    from lsst.pipe.base.connections import DeferredDatasetRef, ScalarError

    w = World(case["conns"])
    ins_ok = {r.id for r in w.all_in}
    outs_ok = {r.id for r in w.all_out}
    overflow = any(not c["multiple"] and len(w.ins["i_" + c["name"]]) > 1 for c in w.spec["ins"])
    if overflow:
        with must_raise(ScalarError, msg="several datasets for a scalar connection"):
            w.connections.buildDatasetRefs(w.quantum)
        return {"nontrivial": True, "labels": ["scalar-error"]}
    check_refs(w, *w.connections.buildDatasetRefs(w.quantum))
    qc = QuantumContext(w.butler, w.quantum, quantum_id=w.qid)
    expect(qc.dimensions is w.universe, "dimensions of the context")
    read, extras, labels = set(), {}, []
    put_model = {}
    foreign_seen = wrote_after_read = False
    counter = 0

    def verify_value(ref, deferred, value):
        if ref is None:
            expect(value is None, "None in, None out")
        elif deferred:
            expect(isinstance(value, FakeHandle) and value.ref.id == ref.id, f"deferred handle for {ref}")
        else:
            expect(value is w.butler.inputs[ref.id], f"value delivered for {ref}")
            expect(not isinstance(value, FakeHandle), "direct read")

    def wrap(ref, deferred):
        return DeferredDatasetRef(datasetRef=ref) if deferred and ref is not None else ref

    def settle(allowed, required, what, prior):
        """Compare what was stored against what had to be and may have been stored."""
        stored = {i: v for i, v in w.butler.stored.items()}
        w.butler.stored = {}
        for i, (obj, ref, snap) in stored.items():
            expect(i in outs_ok, f"{what}: wrote {ref}, which is not an output of the quantum")
            expect(i in allowed, f"{what}: unexpectedly wrote {ref}")
            expect(obj is allowed[i], f"{what}: wrong value stored for {ref}")
            expect(snap is not None, f"{what}: no provenance passed")
            expect_eq(sorted(map(str, snap[0])), sorted(map(str, prior)), f"{what}: provenance inputs of {ref}")
            expect_eq(snap[1], w.qid, f"{what}: quantum ID in provenance")
            expect_eq(snap[2], extras, f"{what}: extra provenance")
            put_model[i] = True
        missing = set(required) - set(stored)
        expect(not missing, f"{what}: {len(missing)} outputs were not written")
        expect_eq({t[2] for t in qc.outputsPut}, set(put_model), f"{what}: outputsPut")

    for op in case["ops"]:
        k = op["op"]
        labels.append(k)
        w.butler.calls = []
        what = k
        if k in ("get", "get_list"):
            picks = [op["pick"]] if k == "get" else op["picks"]
            refs = [(w.pick(p[0], p[1]), p[2]) for p in picks]
            bad = next((i for i, (r, _) in enumerate(refs) if r is not None and r.id not in ins_ok), None)
            arg = wrap(*refs[0]) if k == "get" else (tuple if op["tuple"] else list)(wrap(*r) for r in refs)
            if bad is None:
                res = qc.get(arg)
                res = [res] if k == "get" else res
                expect_eq(len(res), len(refs), "number of values")
                for (r, d), v in zip(refs, res):
                    verify_value(r, d, v)
                read |= {r.id for r, _ in refs if r is not None}
            else:
                foreign_seen = True
                labels.append("foreign-read")
                with must_raise(ValueError, msg=f"reading {refs[bad][0]} which is not an input"):
                    qc.get(arg)
                # references before the foreign one may have been read
                seen = {c[1].id for c in w.butler.calls}
                read |= seen & ins_ok
            for c in w.butler.calls:
                expect(c[0] != "put" and c[1].id in ins_ok, f"butler access to {c[1]} which is not an input")
        elif k == "get_all":
            inrefs, _ = w.connections.buildDatasetRefs(w.quantum)
            names = sorted(inrefs.keys())
            for i, n in enumerate(names):
                if (op["drop"] >> i) & 1:
                    delattr(inrefs, n)
            names = sorted(inrefs.keys())
            expected = {}
            badref = None
            if op["bad"] and names:
                r = w.pick(op["bad"][0], op["bad"][1])
                n = names[op["where"] % len(names)]
                v = getattr(inrefs, n)
                r2 = wrap(r, op["bad"][2])
                if isinstance(v, list):
                    v = list(v)
                    v.insert(op["where"] % (len(v) + 1), r2)
                else:
                    v = r2
                setattr(inrefs, n, v)
                if r is not None and r.id not in ins_ok:
                    badref = r
            for n in names:
                v = getattr(inrefs, n)
                expected[n] = [(x.datasetRef if isinstance(x, DeferredDatasetRef) else x, isinstance(x, DeferredDatasetRef))
                               for x in (v if isinstance(v, list) else [v])], isinstance(v, list)
            if badref is None:
                res = qc.get(inrefs)
                expect_eq(set(res), set(names), "connections delivered")
                for n, (rs, many) in expected.items():
                    vals = res[n] if many else [res[n]]
                    if many:
                        expect(isinstance(vals, list), f"{n} is delivered as a list")
                    expect_eq(len(vals), len(rs), f"values for {n}")
                    for (r, d), v in zip(rs, vals):
                        verify_value(r, d, v)
                    read |= {r.id for r, _ in rs if r is not None}
            else:
                foreign_seen = True
                with must_raise(ValueError, msg=f"reading {badref} which is not an input"):
                    qc.get(inrefs)
                read |= {c[1].id for c in w.butler.calls} & ins_ok
            for c in w.butler.calls:
                expect(c[0] != "put" and c[1].id in ins_ok, f"butler access to {c[1]} which is not an input")
        elif k in ("put", "put_list"):
            picks = [op["pick"]] if k == "put" else op["picks"]
            refs, vals, used = [], [], set()
            for p in picks:
                r = w.pick(p[0], p[1])
                if r.id in used:
                    continue
                used.add(r.id)
                refs.append(r)
                counter += 1
                vals.append(make_value(p[2], counter))
            allowed = {r.id: v for r, v in zip(refs, vals) if r.id in outs_ok}
            bad = any(r.id not in outs_ok for r in refs)
            foreign_seen |= bad
            if k == "put":
                args = (vals[0], refs[0])
                mismatch = False
            else:
                mismatch = op["extra"] != 0 and not (op["extra"] < 0 and not vals)
                vv = vals + [object()] if op["extra"] > 0 else vals[:-1] if op["extra"] < 0 else vals
                args = ((tuple if op["tuple"] else list)(vv), refs)
            if mismatch:
                with must_raise(ValueError, msg="different numbers of values and references"):
                    qc.put(*args)
                settle({}, (), what + " with mismatched length", read)
            elif bad:
                with must_raise(ValueError, msg="writing a reference that is not an output"):
                    qc.put(*args)
                settle(allowed, (), what + " with a foreign reference", read)
            else:
                qc.put(*args)
                wrote_after_read |= bool(read and refs)
                settle(allowed, allowed, what, read)
        elif k in ("put_all", "run"):
            inrefs, outrefs = w.connections.buildDatasetRefs(w.quantum)
            result = w.Struct()
            allowed, required, mismatch = {}, {}, False
            for i, c in enumerate(w.spec["outs"]):
                n = "o_" + c["name"]
                refs = w.outs[n]
                if not c["multiple"] and not refs:
                    # scalar connection whose output was dropped: anything provided is ignored
                    if (op["give"] >> i) & 1:
                        setattr(result, n, object())
                    continue
                if k == "put_all" and (op["drop"] >> i) & 1:
                    delattr(outrefs, n)
                    setattr(result, n, [object() for _ in refs] if c["multiple"] else object())
                    continue
                if not (op["give"] >> i) & 1:
                    if k == "put_all" and (op["none"] >> i) & 1:
                        setattr(result, n, None)
                    continue
                if c["multiple"]:
                    vals = []
                    for _ in refs:
                        counter += 1
                        vals.append(make_value(op["kind"], counter))
                    if k == "put_all" and (op["short"] >> i) & 1:
                        mismatch = True
                        setattr(result, n, vals + [object()] if i % 2 or not vals else vals[:-1])
                        continue
                    setattr(result, n, tuple(vals) if k == "put_all" and op["tuple"] else vals)
                    allowed.update((r.id, v) for r, v in zip(refs, vals))
                else:
                    counter += 1
                    v = make_value(op["kind"], counter)
                    setattr(result, n, v)
                    allowed[refs[0].id] = v
            if k == "put_all":
                if op["extra_attr"]:
                    result.not_a_connection = [object()]
                if mismatch:
                    with must_raise(ValueError, msg="list connection with a different number of values"):
                        qc.put(result, outrefs)
                    settle(allowed, (), what + " with mismatched length", read)
                else:
                    qc.put(result, outrefs)
                    settle(allowed, allowed, what, read)
            else:
                w.run_kwargs, w.run_result = None, result
                w.task.runQuantum(qc, inrefs, outrefs)
                exp = {}
                for c in w.spec["ins"]:
                    refs = w.ins["i_" + c["name"]]
                    if c["multiple"] or refs:
                        exp["i_" + c["name"]] = (refs, c)
                expect_eq(set(w.run_kwargs or {}), set(exp), "arguments of run")
                for n, (refs, c) in exp.items():
                    vals = w.run_kwargs[n] if c["multiple"] else [w.run_kwargs[n]]
                    expect_eq(len(vals), len(refs), f"values of {n}")
                    for r, v in zip(refs, vals):
                        verify_value(r, c["deferred"], v)
                    read |= {r.id for r in refs}
                settle(allowed, allowed, what, read)
            wrote_after_read |= bool(read and allowed)
        elif k == "extra":
            if op["foreign"] or not read:
                r = w.foreign[op["pick"] % 3] if op["foreign"] else (w.all_in + w.foreign)[op["pick"] % len(w.all_in + w.foreign)]
                with must_raise(ValueError, msg="extra provenance for a dataset that was not read"):
                    qc.add_additional_provenance(r, {"q": 1})
            else:
                r = [r for r in w.all_in if r.id in read]
                r = r[op["pick"] % len(r)]
                qc.add_additional_provenance(r, {f"k{op['pick'] % 3}": op["pick"]})
                extras.setdefault(r.id, {})[f"k{op['pick'] % 3}"] = op["pick"]
        elif k == "bad_type":
            _, outrefs = w.connections.buildDatasetRefs(w.quantum)
            i = op["which"]
            if i < 2:
                with must_raise(TypeError, msg="get with an unsupported argument"):
                    qc.get(["calexp", {"a": 1}][i] if i == 1 else "calexp")
            elif i == 2:
                with must_raise(TypeError, msg="put with an unsupported target"):
                    qc.put(1, "coadd")
            elif i == 3:
                with must_raise(ValueError, msg="put of something other than a Struct"):
                    qc.put({"o_plain": 1}, outrefs)
            elif i == 4:
                with must_raise(ValueError, msg="put of a non-sequence to a list of references"):
                    qc.put(object(), w.all_out[:1])
            elif w.all_out:
                with must_raise(TypeError, msg="put to a deferred reference"):
                    qc.put(1, DeferredDatasetRef(datasetRef=w.all_out[0]))
            settle({}, (), "wrong argument types", read)
    return {"nontrivial": foreign_seen or wrote_after_read, "labels": sorted(set(labels))}


ATTRS = ["a", "b", "c", "_d", "copy", "getDict", "__x", "mergeItems"]


@st.composite
def struct_cases(draw):
    ops = st.one_of(
        st.tuples(st.just("new"), st.lists(st.sampled_from(ATTRS), max_size=4, unique=True)),
        st.tuples(st.just("merge"), st.integers(0, 3), st.integers(0, 3), st.lists(st.sampled_from(ATTRS), max_size=3)),
        st.tuples(st.just("copy"), st.integers(0, 3)),
        st.tuples(st.just("set"), st.integers(0, 3), st.sampled_from("abc")),
        st.tuples(st.just("dict"), st.integers(0, 3)))
    return {"ops": draw(st.lists(ops, min_size=2, max_size=8))}


def struct_check(case):
    from lsst.pipe.base import Struct

    live = []  # (struct, model dict)
    n = 0
    for op in case["ops"]:
        if op[0] == "new":
            kw = {}
            for a in op[1]:
                n += 1
                kw[a] = (n,)
            bad = any(a in ("copy", "getDict", "mergeItems") or a.startswith("__") for a in kw)
            if bad:
                with must_raise(RuntimeError, msg=f"Struct with attributes {sorted(kw)}"):
                    Struct(**kw)
            else:
                live.append((Struct(**kw), dict(kw)))
        elif not live:
            continue
        elif op[0] == "copy":
            s, m = live[op[1] % len(live)]
            live.append((s.copy(), dict(m)))
        elif op[0] == "set":
            s, m = live[op[1] % len(live)]
            n += 1
            v = (n,)
            setattr(s, op[2], v)
            m[op[2]] = v
        elif op[0] == "dict":
            s, m = live[op[1] % len(live)]
            d = s.getDict()
            expect_eq(d, m, "getDict")
            d["zz"] = 1
        elif op[0] == "merge":
            (s, m), (s2, m2) = live[op[1] % len(live)], live[op[2] % len(live)]
            try:
                s.mergeItems(s2, *op[3])
                failed = None
            except (RuntimeError, AttributeError) as exc:
                failed = type(exc).__name__
            for a in op[3]:
                if a not in m2:
                    # methods of Struct exist on both sides and can never be merged
                    expect(failed is not None, f"merged {a} which the source lacks")
                    break
                if a in m:
                    expect_eq(failed, "RuntimeError", f"merging {a} over an existing attribute")
                    break
                m[a] = m2[a]
            else:
                expect(failed is None, f"merge of {op[3]} failed with {failed}")
        for s, m in live:
            expect_eq(s.getDict(), m, "attributes")
            expect_eq(len(s), len(m), "length")
            for a, v in m.items():
                expect(getattr(s, a) is v, "attribute value")
    return {"nontrivial": len(live) > 1, "labels": sorted({o[0] for o in case["ops"]})}


FACETS = [Facet("history", cases, check, quick=6000, thorough=150000, setup=setup),
          Facet("struct", struct_cases, struct_check, quick=1500, thorough=20000, setup=setup)]
