"""The check of each property."""
import gen, vf
from gen import R, NAN, INF, f32
CHECKS = {}
def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco
STATS = ["Mean", "Sum", "Count", "Min", "Max", "Median", "Std", "Variance", "RandomChoice"]

def rng(run, salt=0):
    return R(run.seed * 1000003 + hash_(run.prop) * 17 + salt)
def hash_(s):
    import zlib
    return zlib.crc32(s.encode())
NOTES = {}   # property -> (technique, level note)
NA = {}      # property -> why it is not claimed
DEFAULT_NOTE = ("Every generated call of the real code is judged by the TLA+ definition of its result; assurance for the calls explored. "
                "Trusts the real arithmetic behind RealNum.tla (Java doubles), the stated rounding tolerances and the driver's transcription.")
import importlib, sys
sys.modules["props"] = sys.modules[__name__]
for m in ["props_fields", "props_geo", "props_down", "props_curve", "props_assim", "props_robust", "props_threads", "props_python", "props_client"]:
    importlib.import_module(m)
