"""Instrument classes and a second observation packer used by the C28 check."""
from __future__ import annotations

import lsst.pipe.base as pb
from lsst.daf.butler import DataCoordinate, DimensionPacker
from lsst.daf.butler.formatters.json import JsonFormatter
from lsst.pex.config import Config, Field


class Inst(pb.Instrument):
    @classmethod
    def getName(cls):
        return "Inst"

    def register(self, registry, *, update=False):
        registry.syncDimensionData("instrument", {"name": self.getName(), "class_name": f"vpinst.{type(self).__name__}", "detector_max": 9,
                                                  "visit_max": 30, "exposure_max": 40}, update=update)

    def getRawFormatter(self, dataId):
        return JsonFormatter


class Inst2(Inst):
    """Chooses another packer by default."""

    @classmethod
    def getName(cls):
        return "Inst2"

    def _make_default_dimension_packer(self, config_dict, data_id, is_exposure=None, default="reversed"):
        return super()._make_default_dimension_packer(config_dict, data_id, is_exposure=is_exposure, default=default)


class NotInst:
    def __init__(self, collection_prefix=None):
        pass


class RevConfig(Config):
    n = Field("Detector stride", dtype=int, default=1000)


class RevPacker(DimensionPacker):
    """Observation + n_observations * detector, unlike the standard packer."""

    ConfigClass = RevConfig

    def __init__(self, data_id, config=None, is_exposure=None):
        fixed = data_id.subset(data_id.universe.conform(["instrument"]))
        if is_exposure is None:
            is_exposure = "visit" not in data_id.dimensions.names
        self.obs = "exposure" if is_exposure else "visit"
        super().__init__(fixed, fixed.universe.conform(["instrument", "detector", self.obs]))
        self.n = (config or RevConfig()).n

    @property
    def maxBits(self):
        return 62

    def _pack(self, dataId):
        return dataId[self.obs] + self.n * dataId["detector"]

    def unpack(self, packedId):
        d, o = divmod(packedId, self.n)
        return DataCoordinate.standardize({"instrument": self.fixed["instrument"], "detector": d, self.obs: o}, dimensions=self._dimensions)


pb.observation_packer_registry.register("reversed", RevPacker)
