"""In-memory dataset types, storage classes and a direct-access limited butler used as oracle by the C23 check."""
from __future__ import annotations

import pickle
import weakref

from lsst.daf.butler import (
    ButlerMetrics,
    DatasetRef,
    DeferredDatasetHandle,
    LimitedButler,
    StorageClass,
    StorageClassDelegate,
    StorageClassFactory,
)
from lsst.daf.butler.registry import ConflictingDefinitionError

LIVE: weakref.WeakSet = weakref.WeakSet()


class Base:
    """Composite with two list components, a derived component and a slice parameter."""

    def __init__(self, a=(), b=()):
        self.a = list(a)
        self.b = dict(b)
        LIVE.add(self)

    def __deepcopy__(self, memo):
        return type(self)(self.a, self.b)

    def __setstate__(self, state):
        self.__dict__.update(state)
        LIVE.add(self)

    def plain(self):
        return (type(self).__name__, tuple(self.a), tuple(sorted(self.b.items())))


class Comp(Base):
    pass


class Alt(Base):
    pass


class Third(Base):
    pass


def comp_to_alt(c):
    return Alt(c.a, c.b)


def alt_to_comp(c):
    return Comp(c.a, c.b)


def comp_to_third(c):
    return Third(c.a, c.b)


class CompDelegate(StorageClassDelegate):
    def getComponent(self, composite, componentName):
        if componentName == "sum":
            return {"sum": sum(composite.a)}
        return getattr(composite, componentName)

    def handleParameters(self, inMemoryDataset, parameters=None):
        if not parameters:
            return inMemoryDataset
        n = parameters.get("slice", len(inMemoryDataset.a))
        a = inMemoryDataset.a[:n]
        if "scale" in parameters:
            a = [x * parameters["scale"] for x in a]
        return type(inMemoryDataset)(a, inMemoryDataset.b)

    @classmethod
    def selectResponsibleComponent(cls, derivedComponent, fromComponents):
        return "a"


class ListDelegate(StorageClassDelegate):
    def handleParameters(self, inMemoryDataset, parameters=None):
        if not parameters:
            return inMemoryDataset
        return inMemoryDataset[parameters.get("start", 0):]


def register():
    f = StorageClassFactory()
    if "VPComp" not in f:
        lst = StorageClass("VPList", pytype=list, parameters=["start"], delegate="vpdata.ListDelegate")
        dct = f.getStorageClass("StructuredDataDict")
        kw = dict(components={"a": lst, "b": dct}, derivedComponents={"sum": dct}, parameters=["slice", "scale"], delegate="vpdata.CompDelegate")
        f.registerStorageClass(lst)
        f.registerStorageClass(StorageClass("VPComp", pytype=Comp, converters={"vpdata.Alt": "vpdata.alt_to_comp"}, **kw))
        f.registerStorageClass(StorageClass("VPAlt", pytype=Alt, converters={"vpdata.Comp": "vpdata.comp_to_alt"}, **kw))
        f.registerStorageClass(StorageClass("VPThird", pytype=Third, converters={"vpdata.Comp": "vpdata.comp_to_third"}, **kw))
    return f


class Store(LimitedButler):
    """Direct access: every read rebuilds the object from the bytes that were written."""

    def __init__(self, universe, types):
        self.storageClasses = register()
        self._universe = universe
        self._metrics = ButlerMetrics()
        self.types = types
        self.data: dict = {}
        self.fail_puts = 0
        self.appear: dict = {}
        self.calls = 0

    def isWriteable(self):
        return True

    def put(self, obj, ref, /, *, provenance=None):
        sc = self.types[ref.datasetType.name].storageClass
        if self.fail_puts:
            self.fail_puts -= 1
            raise OSError("injected write failure")
        if ref.id in self.data:
            raise ConflictingDefinitionError("exists")
        obj = ref.datasetType.storageClass.coerce_type(obj)
        self.data[ref.id] = pickle.dumps(sc.coerce_type(obj))
        return ref

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.calls += 1
        if storageClass is not None:
            ref = ref.overrideStorageClass(storageClass)
        want = ref.datasetType.storageClass
        if self.appear.get(ref.id, 0) > 0:
            self.appear[ref.id] -= 1
            raise FileNotFoundError(f"{ref} not yet there")
        if ref.id not in self.data:
            raise FileNotFoundError(f"{ref} does not exist")
        obj = pickle.loads(self.data[ref.id])
        name, component = ref.datasetType.nameAndComponent()
        stored = self.types[name].storageClass
        if component in stored.derivedComponents:
            stored.validateParameters(parameters)
            obj = stored.delegate().handleParameters(obj, parameters)
            parameters = {}
        else:
            want.validateParameters(parameters)
        if component:
            obj = stored.delegate().getComponent(obj, component)
        if parameters:
            obj = (want if not component else stored.allComponents()[component]).delegate().handleParameters(obj, parameters)
        return want.coerce_type(obj)

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        return DeferredDatasetHandle(butler=self, ref=ref, parameters=parameters, storageClass=storageClass)

    def stored_many(self, refs):
        self.calls += 1
        result = {}
        for ref in refs:
            if self.appear.get(ref.id, 0) > 0:
                self.appear[ref.id] -= 1
                result[ref] = False
            else:
                result[ref] = ref.id in self.data
        return result

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        for ref in refs:
            if unstore or purge:
                self.data.pop(ref.id, None)

    @property
    def dimensions(self):
        return self._universe

    @property
    def _datastore(self):
        raise NotImplementedError()

    @_datastore.setter
    def _datastore(self, value):
        raise NotImplementedError()


def make_refs(universe, n=2):
    """Dataset types x (composite), y (dict), z (composite, never declared cacheable) with ``n`` datasets each."""
    import uuid

    from lsst.daf.butler import DataCoordinate, DatasetType

    f = register()
    dims = universe.conform(["instrument", "detector"])
    types = {"x": DatasetType("x", dims, f.getStorageClass("VPComp")), "y": DatasetType("y", dims, f.getStorageClass("StructuredDataDict")),
             "z": DatasetType("z", dims, f.getStorageClass("VPComp"))}
    refs = {}
    for i, (name, dt) in enumerate(sorted(types.items())):
        for j in range(n):
            refs[f"{name}{j}"] = DatasetRef(dt, DataCoordinate.standardize(instrument="I", detector=j, universe=universe), run="r",
                                            id=uuid.UUID(int=(i + 1) * 1000 + j, version=4))
    return types, refs


def plain(x):
    if isinstance(x, Base):
        return x.plain()
    if isinstance(x, dict):
        return ("dict", tuple(sorted((k, plain(v)) for k, v in x.items())))
    if isinstance(x, list):
        return ("list", tuple(plain(v) for v in x))
    return x


def mutate(x):
    if isinstance(x, Base):
        x.a.append(-999)
        x.b["corrupted"] = 1
    elif isinstance(x, dict):
        x["corrupted"] = 1
        for v in x.values():
            if isinstance(v, list):
                v.append(-999)
    elif isinstance(x, list):
        x.append(-999)
