"""Data source used by the checks of the creation tools: analytical values, recorded calls, injected faults."""
import numpy as np

from field import NODATA, top, topo, values
from geomodelgrids.create.core.datasrc import DataSrc

CALLS = []   # (kind, block name or None, batch ranges or None, points)


class ProbeSrc(DataSrc):
    def __init__(self, config):
        super().__init__()
        self.config = config
        self.p = config.get("probe", {})
        self.n = {}

    def initialize(self):
        if self.p.get("fail") == "initialize":
            raise RuntimeError("injected: initialize")
        if "auxiliary" in self.p:
            self.config["auxiliary"] = {"from_source": self.p["auxiliary"]}
        if "title" in self.p:
            self.config["geomodelgrids"]["title"] = self.p["title"]

    def _step(self, kind, values):
        """Inject the fault asked for at this call."""
        self.n[kind] = self.n.get(kind, 0) + 1
        if self.p.get("fail") == kind and self.n[kind] >= int(self.p.get("at", 1)):
            how = self.p["how"]
            if how == "raise":
                raise RuntimeError("injected: " + kind)
            if how == "none":
                return None
            if how == "short":
                return values[:-1]
            if how == "nan":
                return values * np.nan
            if how == "extra":
                return np.concatenate([values, values], axis=-1)
            if how == "long":
                return np.concatenate([values, values], axis=0)
            if how == "text":
                return "values"
        return values

    def _surface(self, kind, fn, points):
        CALLS.append([kind, None, None, np.array(points)])
        return self._step(kind, fn(points[:, :, 0], points[:, :, 1])[:, :, None] + float(self.p.get("shift", 0.0)))

    def get_top_surface(self, points):
        return self._surface("top_surface", top, points)

    def get_topography_bathymetry(self, points):
        return self._surface("topography_bathymetry", topo, points)

    def get_values(self, block, top_surface, topo_bathy, batch=None):
        points = block.generate_points(top_surface, batch)
        r = [batch.x_range, batch.y_range, batch.z_range] if batch else None
        CALLS.append(["block", block.name, r, np.array(points)])
        v = values(points[..., 0], points[..., 1], points[..., 2], len(block.model_metadata.data_values))
        if self.p.get("depth"):
            depth = block.get_surface(topo_bathy, batch)
            CALLS.append(["depth", block.name, r, np.array(depth)])
        v = np.where(v == NODATA, NODATA, v + float(self.p.get("shift", 0.0)))
        return self._step("block", v.astype(np.float32))
