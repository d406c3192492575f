# Makes `import opensfm` use /repo's Python sources together with the C++
# extensions built from /repo's C++ sources into $VERIF_BUILD/ext.
import importlib.machinery
import importlib.util
import os
import sys

_here = os.path.dirname(os.path.abspath(__file__))
_verif = os.path.dirname(os.path.dirname(_here))
_ext = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(_verif, "build")), "ext")
_repo = os.environ.get("VERIF_REPO", "/repo")
_SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
_NAMES = {"opensfm." + n for n in (
    "pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm")}


class _ExtFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in _NAMES:
            f = os.path.join(_ext, name.split(".")[1] + _SUFFIX)
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f)
        return None


if not any(getattr(f, "__name__", "") == "_ExtFinder" for f in sys.meta_path):
    sys.meta_path.insert(0, _ExtFinder)
if _repo not in sys.path:
    sys.path.insert(0, _repo)
