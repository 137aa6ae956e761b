from sa import kernels as K
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE, parallel
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 3
JOBS = {"rect": (8, 24), "circ": (7, 23), "cylind": (9, 25)}


def one(j):
    r = K.Result("P03")
    nt, h = JOBS[j]
    K.kernel(r, [f"src/dream_arr_{j}.cc", f"src/dream{j}.cc", "src/attenuation.cc", "src/arr_functions.cc"],
             rf"::dream_arr_{j}\(", "dream_arr", f"spec_dream_arr_{j}", h, nt)
    return r


def check(tier):
    return parallel("P03", one, list(JOBS))
