from sa import kernels as K
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 2
JOBS = {"dreamrect_f": (10, 15), "dreamcirc_f": (9, 14)}


def check(tier):
    r = K.Result("P02")
    for j, (nt, h) in JOBS.items():
        K.kernel(r, [f"src/{j}.cc", "src/attenuation.cc", "src/arr_functions.cc"], rf"::{j}\(", "dream_single", f"spec_{j}", h, nt)
    return r
