"""Importable tasks, configs and instruments used by the generated pipelines."""
from __future__ import annotations

import os

import lsst.pex.config as pexConfig
from lsst.pipe.base import (TaskMetadata, AlgorithmError, AnnotatedPartialOutputsError, Instrument, NoWorkFound, RepeatableQuantumError,
                            UnprocessableDataError, UpstreamFailureNoWorkFound)
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections, Struct
from lsst.pipe.base import connectionTypes as ct

MODULE_CONSTANT = "from_module"


class ChainConnections(PipelineTaskConnections, dimensions=("instrument", "detector"),
                       defaultTemplates={"tpl": "x"}):
    inp = ct.Input(name="{tpl}_default_in", doc="d", storageClass="StructuredDataDict", dimensions=("instrument", "detector"))
    inp2 = ct.Input(name="{tpl}_default_in2", doc="d", storageClass="StructuredDataDict", dimensions=("instrument", "detector"))
    outp = ct.Output(name="{tpl}_default_out", doc="d", storageClass="StructuredDataDict", dimensions=("instrument", "detector"))

    def __init__(self, *, config=None):
        super().__init__(config=config)
        if not config.connections.inp2 or config.connections.inp2 == "none":
            del self.inp2


class SubConfig(pexConfig.Config):
    a = pexConfig.Field(dtype=int, default=1, doc="d")
    b = pexConfig.Field(dtype=str, default="sub", doc="d", optional=True)
    items = pexConfig.ListField(dtype=float, default=[0.5], doc="d")

    def validate(self):
        super().validate()
        if self.a == 666:
            raise ValueError("invalid combination")


class ChainConfig(PipelineTaskConfig, pipelineConnections=ChainConnections):
    i = pexConfig.Field(dtype=int, default=0, doc="d", optional=True)
    f = pexConfig.Field(dtype=float, default=0.5, doc="d", optional=True)
    s = pexConfig.Field(dtype=str, default="dflt", doc="d", optional=True)
    b = pexConfig.Field(dtype=bool, default=False, doc="d", optional=True)
    li = pexConfig.ListField(dtype=int, default=[1, 2], doc="d")
    ls = pexConfig.ListField(dtype=str, default=["p"], doc="d")
    d = pexConfig.DictField(keytype=str, itemtype=int, default={"k": 1}, doc="d")
    ds = pexConfig.DictField(keytype=str, itemtype=str, default={"k": "v"}, doc="d")
    ch = pexConfig.ChoiceField(dtype=str, default="one", allowed={"one": "1", "two": "2", "three": "3"}, doc="d")
    rng = pexConfig.RangeField(dtype=int, default=5, min=0, max=10, doc="d")
    sub = pexConfig.ConfigField(dtype=SubConfig, doc="d")

    def setDefaults(self):
        super().setDefaults()
        self.connections.inp2 = "none"


class TaskA(PipelineTask):
    ConfigClass = ChainConfig
    _DefaultName = "taskA"

    def run(self, **kw):
        return Struct(outp={})


class TaskB(PipelineTask):
    ConfigClass = ChainConfig
    _DefaultName = "taskB"

    def run(self, **kw):
        return Struct(outp={})


CLASSES = {"A": "vptasks.TaskA", "B": "vptasks.TaskB"}


class _Inst(Instrument):
    def register(self, registry, *, update=False):
        pass

    def getRawFormatter(self, dataId):
        raise NotImplementedError


class InstI1(_Inst):
    @classmethod
    def getName(cls):
        return "I1"


class InstI2(_Inst):
    @classmethod
    def getName(cls):
        return "I2"


class InstOne(_Inst):
    @classmethod
    def getName(cls):
        return "InstOne"


class InstTwo(_Inst):
    @classmethod
    def getName(cls):
        return "InstTwo"


class InstConfigured(_Inst):
    """Config paths come from the environment so that a case can supply files."""

    @classmethod
    def getName(cls):
        return "InstConfigured"

    @property
    def configPaths(self):
        return [p for p in os.environ.get("VP_INST_PATHS", "").split(os.pathsep) if p]


# --------------------------------------------------------------------------------------------------------------
# tasks whose connections are given by a JSON description

_KINDS = {"init_in": ct.InitInput, "init_out": ct.InitOutput, "prereq": ct.PrerequisiteInput, "in": ct.Input,
          "out": ct.Output}


def _lookup_instrument(dataset_type, registry, data_id, collections):
    """All datasets of the quantum's instrument, first match per data ID."""
    refs = registry.queryDatasets(dataset_type, collections=collections, findFirst=True, dataId={"instrument": data_id["instrument"]})
    return sorted(refs)


def _lookup_nothing(dataset_type, registry, data_id, collections):
    return [None]


LOOKUPS = {"instrument": _lookup_instrument, "nothing": _lookup_nothing}


def make_connection(c):
    kw = dict(name=c["name"], storageClass=c["sc"], doc="d", multiple=bool(c.get("multiple", False)))
    if c["kind"] in ("prereq", "in", "out"):
        kw.update(dimensions=frozenset(c["dims"]), isCalibration=bool(c.get("calib", False)))
    if c["kind"] in ("prereq", "in"):
        kw.update(minimum=c.get("minimum", 1), deferLoad=bool(c.get("defer_load", False)))
    if c["kind"] == "prereq" and c.get("lookup"):
        kw.update(lookupFunction=LOOKUPS[c["lookup"]])
    if c["kind"] == "in":
        kw.update(deferGraphConstraint=bool(c.get("defer_query", False)), deferBinding=bool(c.get("defer_bind", False)))
    return _KINDS[c["kind"]](**kw)


SPEC_OVERRIDE = {}
"""Simulates a change of the task definitions: config.value -> specification used instead of config.spec."""


def crc(values):
    import zlib

    return zlib.crc32("|".join(map(str, values)).encode())


def apply_adjust(rules, quantum_values, inputs, outputs):
    """The generated adjustQuantum: works on {connection: [(data ID values, item)]}.

    Returns changed inputs, changed outputs and whether to raise NoWorkFound.
    """
    new_in, new_out = {}, {}

    def current(conn):
        return new_in.get(conn, new_out.get(conn, inputs.get(conn, outputs.get(conn))))

    def set_(conn, items):
        (new_in if conn in inputs else new_out)[conn] = items

    for r in rules:
        if r["op"] == "keep":
            set_(r["conn"], [x for x in current(r["conn"]) if crc(x[0]) % r["m"] != r["r"]])
        elif r["op"] == "reverse":
            set_(r["conn"], list(reversed(current(r["conn"]))))
        elif r["op"] == "zip":
            have = {x[0] for x in current(r["a"])}
            set_(r["b"], [x for x in current(r["b"]) if x[0] in have])
        elif r["op"] == "nowork":
            if crc(quantum_values) % r["m"] == r["r"]:
                return {}, {}, True
        elif r["op"] == "nooutputs":
            if crc(quantum_values) % r["m"] == r["r"]:
                for conn in outputs:
                    set_(conn, [])
    return new_in, new_out, False


class SpecConnections(PipelineTaskConnections, dimensions=()):
    def __init__(self, *, config=None):
        super().__init__(config=config)
        import json

        spec = json.loads(config.spec)
        spec = SPEC_OVERRIDE.get(config.value, spec)
        self.dimensions.update(spec["dims"])
        for c in spec["conns"]:
            setattr(self, c["conn"], make_connection(c))
        self.vp_spec = spec

    def adjustQuantum(self, inputs, outputs, label, data_id):
        rules = self.vp_spec.get("adjust")
        if not rules:
            return super().adjustQuantum(inputs, outputs, label, data_id)

        def simple(d):
            return {k: [(r.dataId.required_values, r) for r in refs] for k, (_, refs) in d.items()}

        new_in, new_out, stop = apply_adjust(rules, data_id.required_values, simple(inputs), simple(outputs))
        if stop:
            raise NoWorkFound("nothing to do by rule")
        adjusted_in = {k: (inputs[k][0], [x[1] for x in v]) for k, v in new_in.items()}
        adjusted_out = {k: (outputs[k][0], [x[1] for x in v]) for k, v in new_out.items()}
        inputs.update(adjusted_in)
        outputs.update(adjusted_out)
        super().adjustQuantum(inputs, outputs, label, data_id)
        return adjusted_in, adjusted_out

    def adjust_all_quanta(self, adjuster):
        for r in self.vp_spec.get("adjust_all", ()):
            ids = sorted(adjuster.iter_data_ids(), key=lambda d: d.required_values)
            if r["op"] == "remove":
                for d in ids:
                    if crc(d.required_values) % r["m"] == r["r"]:
                        adjuster.remove_quantum(d)
            elif r["op"] == "merge":
                for i in range(0, len(ids), r["m"]):
                    first, rest = ids[i], ids[i + 1:i + r["m"]]
                    for d in rest:
                        for conn, data_ids in adjuster.get_inputs(d).items():
                            for x in data_ids:
                                adjuster.add_input(first, conn, x)
                        for conn, found in adjuster.get_prerequisite_inputs(d).items():
                            for x in found:
                                adjuster.add_prerequisite_input(first, conn, x)
                        for conn, data_ids in adjuster.get_outputs(d).items():
                            for x in data_ids:
                                adjuster.move_output(first, conn, x)
                        adjuster.remove_quantum(d)

    def getSpatialBoundsConnections(self):
        return self.vp_spec.get("spatial_bounds", ())

    def getTemporalBoundsConnections(self):
        return self.vp_spec.get("temporal_bounds", ())


class SpecConfig(PipelineTaskConfig, pipelineConnections=SpecConnections):
    spec = pexConfig.Field(dtype=str, default='{"dims": [], "conns": []}', doc="d")
    value = pexConfig.Field(dtype=int, default=0, doc="d")


class SpecTask(PipelineTask):
    ConfigClass = SpecConfig
    _DefaultName = "specTask"

    def __init__(self, *, config, initInputs=None, **kw):
        super().__init__(config=config, initInputs=initInputs, **kw)
        self.init_inputs_seen = dict(initInputs or {})
        for name in config.ConnectionsClass(config=config).initOutputs:
            setattr(self, name, {"made_by": self.getName(), "conn": name, "value": config.value,
                                 "from": {k: v for k, v in self.init_inputs_seen.items()}})


class SpecTask2(SpecTask):
    _DefaultName = "specTask2"


# --------------------------------------------------------------------------------------------------------------
# runnable tasks: the output of a quantum is a function of its label, data ID, config and everything it read

BEHAVIOR = {}
"""Actions by "label|data ID values" (or the file named by VP_BEHAVIOR)."""

EVENTS = []
"""What ran, in this process (and in the file named by VP_EVENTS)."""


def quantum_key(label, data_id):
    return "|".join([label, *map(str, data_id.required_values)])


def behavior_of(key):
    path = os.environ.get("VP_BEHAVIOR")
    if path:
        import json

        with open(path) as f:
            return json.load(f).get(key, {"do": "ok"})
    return BEHAVIOR.get(key, {"do": "ok"})


def record_event(event):
    import json

    EVENTS.append(event)
    path = os.environ.get("VP_EVENTS")
    if path:
        fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, (json.dumps(event) + "\n").encode())
        finally:
            os.close(fd)


class VPError(RuntimeError):
    pass


class VPAlgorithmError(AlgorithmError):
    def __init__(self, message, md):
        super().__init__(message)
        self.md = md

    @property
    def metadata(self):
        return self.md


def digest(obj):
    import hashlib
    import json

    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]


def summarize(value):
    if isinstance(value, TaskMetadata):
        # timings differ between runs; only say whose metadata this is
        return digest({"metadata of": mark_of(value)})
    return None if value is None else digest(value)


def mark_of(metadata):
    for k, v in sorted(metadata.to_dict().items()):
        if isinstance(v, dict) and "mark" in v:
            return v["mark"]
    return None


def make_output(label, config_value, conn, values, inputs, init):
    """Content of one output dataset (also computed by the model)."""
    return {"task": label, "value": config_value, "conn": conn, "id": [str(v) for v in values], "inputs": inputs, "init": init}


def tangle(value):
    """One value for a list or a single digest (lists are order-independent)."""
    return sorted(value) if isinstance(value, list) else value


def emit(log, how, logger, level, message):
    """Emit one log record in the given way."""
    import logging
    import threading

    from lsst.daf.butler.logging import ButlerMDC

    lg = log if logger == "task" else logging.getLogger(logger)
    if how == "plain":
        lg.log(level, message)
    elif how == "args":
        lg.log(level, "%s and %d", message, 3)
    elif how == "exc":
        try:
            raise VPError(message)
        except VPError:
            lg.log(level, "caught %s", message, exc_info=True)
    elif how == "mdc":
        with ButlerMDC.set_mdc({"INNER": message[:5]}):
            lg.log(level, "inside %s", message)
        lg.log(level, "outside %s", message)
    elif how == "thread":
        t = threading.Thread(target=lg.log, args=(level, "from a thread %s", message))
        t.start()
        t.join()
    else:
        raise AssertionError(how)


class RunTask(SpecTask):
    """Reads everything, writes a deterministic summary, and behaves as the table of the case says."""

    _DefaultName = "runTask"

    def __init__(self, *, config, initInputs=None, **kw):
        super().__init__(config=config, initInputs=initInputs, **kw)
        if behavior_of("init|" + self.getName())["do"] == "fail":
            raise VPError(f"cannot construct {self.getName()}")

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        q = butlerQC.quantum
        label = None
        for dt in q.outputs:
            if dt.name.endswith("_metadata"):
                label = dt.name[: -len("_metadata")]
        key = quantum_key(label, q.dataId)
        action = behavior_of(key)
        do = action["do"]

        def flat(refs):
            return [[str(v) for v in (r.datasetRef if hasattr(r, "datasetRef") else r).dataId.required_values]
                    + [type(r).__name__] for r in (refs if isinstance(refs, list | tuple) else [refs])]

        record_event({"event": "start", "key": key, "pid": os.getpid(),
                      "inputs": {k: flat(v) for k, v in inputRefs}, "outputs": {k: flat(v) for k, v in outputRefs},
                      "scalar": sorted([k for k, v in inputRefs if not isinstance(v, list | tuple)]
                                       + [k for k, v in outputRefs if not isinstance(v, list | tuple)])})
        for i in range(action.get("logs", 1)):
            self.log.info("running %s line %d attempt %d", key, i, action.get("attempt", 0))
        for how, *rest in action.get("emit", []):
            emit(self.log, how, *rest)
        self.metadata["mark"] = key
        self.metadata["attempt"] = action.get("attempt", 0)
        if do == "sleep":
            import time

            time.sleep(action["time"])
        if do == "fail-early":
            raise VPError(f"early failure of {key}")
        if do == "interrupt":
            raise KeyboardInterrupt(f"interrupted {key}")
        if do == "nowork-early":
            raise NoWorkFound(f"no work for {key}")
        if do == "exit":
            os._exit(action["code"])
        if do == "kill":
            import signal

            os.kill(os.getpid(), signal.SIGKILL)
        values = butlerQC.get(inputRefs)
        inputs = {}
        for conn, v in values.items():
            got = []
            for x in v if isinstance(v, list) else [v]:
                got.append(summarize(x.get() if hasattr(x, "ref") and hasattr(x, "get") and not isinstance(x, dict) else x))
            inputs[conn] = sorted(got) if isinstance(v, list) else got[0]
        init = {k: summarize(v) for k, v in self.init_inputs_seen.items()}
        results = Struct()
        names = sorted(k for k, _ in outputRefs)
        wanted = names
        if do in ("fail-partial", "partial", "missing", "nowork-partial"):
            wanted = [n for i, n in enumerate(names) if (action.get("mask", 1) >> i) & 1]
        for name in wanted:
            refs = getattr(outputRefs, name)
            if isinstance(refs, list | tuple):
                out = [make_output(label, self.config.value, name, r.dataId.required_values, inputs, init) for r in refs]
            else:
                out = make_output(label, self.config.value, name, refs.dataId.required_values, inputs, init)
            setattr(results, name, out)
        if do == "fail-late":
            raise VPError(f"late failure of {key}")
        butlerQC.put(results, outputRefs)
        if do == "fail-partial":
            raise VPError(f"failure of {key} after writing")
        if do == "fail-repeatable":
            raise RepeatableQuantumError(f"repeatable failure of {key}")
        if do == "fail-algorithm":
            raise VPAlgorithmError(f"algorithm failure of {key}", {"n": 3})
        if do == "partial":
            error = VPAlgorithmError(f"partial failure of {key}", {"n": 4, "f": 0.5}) if action.get("alg") else VPError(f"partial failure of {key}")
            raise AnnotatedPartialOutputsError.annotate(error, self, log=self.log) from error
        if do == "nowork-partial":
            raise NoWorkFound(f"no more work for {key}")
        if do == "nowork-upstream":
            raise UpstreamFailureNoWorkFound(f"upstream of {key}")
        if do == "unprocessable":
            raise UnprocessableDataError(f"data of {key}")
        record_event({"event": "end", "key": key, "pid": os.getpid()})
