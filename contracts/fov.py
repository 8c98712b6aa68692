"""PPApplyFOVFilter against the contracts of the footprints it calls (C18, C19)"""
from pyvc.contract import contract
from pyvc import lib as L
from contracts.common import *

A = "sorcha.modules.PPApplyFOVFilter"


class Obs:
    """a table of detections with row labels 0..n-1"""

    def sym_getattr(self, I, name):
        if name == "iloc":
            return ByPlace(self)
        if name == "copy":
            return Prim(lambda I, a, k: self, name)
        raise Unsupported("detections ." + name)


class ByPlace:
    def __init__(self, obs):
        self.obs = obs

    def sym_getitem(self, I, k):
        if isinstance(k, Listing):
            return Picked(self.obs, k, {}, False)
        raise Unsupported("iloc")


class Listing:
    """one of the parallel lists returned by a footprint"""

    def __init__(self, name):
        self.name = name


class Picked:
    def __init__(self, obs, rows, cols, srt):
        self.obs, self.rows, self.cols, self.srt = obs, rows, cols, srt

    def sym_getattr(self, I, name):
        if name in ("copy", "sort_index"):
            def f(I, a, k):
                if a or any(v is not True for v in k.values()):
                    raise Unsupported(name)
                return Picked(self.obs, self.rows, dict(self.cols), self.srt or name == "sort_index")
            return Prim(f, name)
        raise Unsupported("detections ." + name)

    def sym_setitem(self, I, k, v):
        if self.srt:
            raise Unsupported("column set after sorting")
        self.cols[k] = v


def config(V, model, extra=None):
    cfg = Obj("sconfigs")
    cfg.attrs["fov"] = Obj("fov", camera_model=model, **(extra or {}))
    return cfg


def wired(V, model, lists, cols):
    """the picked rows carry the columns listed with them, in the order of the input"""
    def check(out, obs):
        if not V.returns(out):
            return
        o = out.value
        V.ensure("exactly the detections on a detector", isinstance(o, Picked) and o.obs is obs and o.rows is lists[0])
        if isinstance(o, Picked):
            V.ensure("paired with their detectors", o.cols == dict(zip(cols, lists[1:])))
            V.ensure("in their order", o.srt)
    return check
