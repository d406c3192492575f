FAKE = '''import stubs
import os, tempfile, shutil
import numpy as np
from opensfm import dataset
T = tempfile.mkdtemp()
os.makedirs(T + "/images"); os.makedirs(T + "/features"); os.makedirs(T + "/matches")
open(T + "/image_list.txt", "w").write("images/a.jpg\\nimages/b.jpg")
try:
    ds = dataset.DataSet(T)
%s
finally:
    shutil.rmtree(T)
'''


def body(s):
    return FAKE % "\n".join("    " + l for l in s.strip("\n").split("\n"))


SEEDS = [
 dict(id="c09-words-sign", property="C09",
  edits=[("opensfm/dataset.py", "            np.savez_compressed(f, words=words.astype(np.uint16))\n", "            np.savez_compressed(f, words=words.astype(np.int16))\n")],
  needs="a vocabulary with more than 32768 words",
  breaks="word ids above 32767 come back negative",
  demo=body('''
w = np.array([[1, 40000], [32768, 65535]], dtype=np.int32)
ds.save_words("a.jpg", w)
got = ds.load_words("a.jpg")
assert (got == w).all(), got
''')),
 dict(id="c09-unpickler-numpy", property="C09",
  edits=[("opensfm/dataset.py", """                allowed_module = classname in self.modules_map
                if not allowed_module:
                    raise pickle.UnpicklingError(
                        "global '%s.%s' is forbidden" % (module, name)
                    )
                return getattr(self.modules_map[classname], name)
""", """                if classname in self.modules_map:
                    return getattr(self.modules_map[classname], name)
                if module.split(".")[0] == "numpy":
                    # the location of numpy's internals depends on its version
                    return super().find_class(module, name)
                raise pickle.UnpicklingError(
                    "global '%s.%s' is forbidden" % (module, name)
                )
""")],
  needs="a match file whose pickle calls a numpy function with side effects",
  breaks="the match file unpickler accepts any numpy callable",
  demo=body('''
import pickle, gzip
class E:
    def __reduce__(self):
        return np.savetxt, (T + "/marker", np.zeros(1))
with gzip.open(T + "/matches/a.jpg_matches.pkl.gz", "wb") as f:
    f.write(pickle.dumps({"b.jpg": E()}))
try:
    ds.load_matches("a.jpg")
    raised = False
except Exception:
    raised = True
assert raised and not os.path.exists(T + "/marker")
ds.save_matches("a.jpg", {"b.jpg": np.array([[1, 2]])})
assert ds.load_matches("a.jpg")["b.jpg"].tolist() == [[1, 2]]
''')),
 dict(id="c09-mask-extension", property="C09",
  edits=[("opensfm/dataset.py", "            for image in self.images():\n                mask = image + \".png\"\n", "            for image in self.images():\n                mask = image if image.endswith(\".png\") else image + \".png\"\n")],
  needs="PNG images with masks",
  breaks="the mask of a PNG image is looked up under the wrong name (and the mask of another image may be used)",
  demo=body('''
os.makedirs(T + "/masks")
open(T + "/image_list.txt", "w").write("images/a.png\\nimages/b.jpg")
open(T + "/masks/a.png.png", "w"); open(T + "/masks/b.jpg.png", "w")
ds = dataset.DataSet(T)
assert {k: os.path.basename(v) for k, v in ds.mask_files.items()} == {"a.png": "a.png.png", "b.jpg": "b.jpg.png"}, ds.mask_files
''')),
]
