"""Stand-ins of the optional dependencies netCDF4 and meteostat (not installed here), under
their own names, so that hrosailing finds them however it imports them.  What they answer is
set by the running execution."""
import sys
import types


def _missing(*_args, **_kwargs):
    raise ModuleNotFoundError("not simulated in this execution")


class Optional:
    dataset = staticmethod(_missing)
    point = staticmethod(_missing)
    hourly = staticmethod(_missing)


def install():
    nc = types.ModuleType("netCDF4")
    nc.Dataset = lambda *a, **k: Optional.dataset(*a, **k)
    ms = types.ModuleType("meteostat")
    ms.Point = lambda *a, **k: Optional.point(*a, **k)
    ms.Hourly = lambda *a, **k: Optional.hourly(*a, **k)
    sys.modules["netCDF4"], sys.modules["meteostat"] = nc, ms
