"""Makes the Python modules of the repository (cwd) importable without the C++ extensions."""
import os
import sys
import types
from unittest import mock

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
EXT = ["pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm"]
mods = {}
for _n in EXT:
    m = mock.MagicMock(name=_n)
    m.__name__ = "opensfm." + _n
    m.__spec__ = None
    m.__path__ = []
    sys.modules["opensfm." + _n] = m
    mods[_n] = m


class Observation:
    NO_SEMANTIC_VALUE = -1

    def __init__(self, *a):
        self.a = a
        self.depth_prior = None


class Depth:
    def __init__(self, value, std_deviation, **k):
        self.value, self.std_deviation = value, std_deviation


class TracksManager:
    def __init__(self):
        self.obs = {}

    def add_observation(self, im, tr, o):
        self.obs[im, tr] = o

    def num_shots(self):
        return len({k[0] for k in self.obs})

    def num_tracks(self):
        return len({k[1] for k in self.obs})


mods["pymap"].Observation = Observation
mods["pymap"].Depth = Depth
mods["pymap"].TracksManager = TracksManager
